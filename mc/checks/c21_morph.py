"""C21: morphs show the source at 0, the target at 1, and restore the model"""
from mc.engine import same, equal, require, raises, Disabled, Violation
from mc.oracle import *
from mc.models import *
from x7.geom.anim import Animation, Morph, MorphMultiStep, MorphError

CURVES = {
    1: [((1, 1), (4, 0), (0, 3))],
    2: [((-3, 0.5), (0, 5), (0, -5), 'sharp'), ((4, 0), (0, -2), (0, 2))],
    3: [((0, 0), (0, 2), (0, -2)), ((6, 1), (-1, -1.5), (1, 1.5), 'very-smooth'), ((3, 5), (2, 0), (-1, 2), 'sharp')],
    4: [((4, 0), (0, -1), (0, 1)), ((0, 3), (2, 0), (-1, 0)), ((-5, -1), (0, 1), (0, -1.5)), ((0, -4), (-2, 0.5), (2, -0.5))],
    5: [((8, 2), (0, -3), (0, 1)), ((5, 6), (2, 0), (-1, 0)), ((0, 4), (1, 1), (-1, -1)), ((1, -2), (0, 1), (1, -1)), ((4, -3), (-1, 0), (1, 0))],
}
OTHER = {
    1: [((-2, 3), (1, 5), (4, -1))],
    2: [((10, 0), (0, 2), (1, -5)), ((12, 6), (3, 0), (-3, 0), 'sharp')],
    3: [((9, 9), (1, 1), (-1, -1)), ((2, 2), (-1, 2), (1, -2)), ((9, -3), (0, -1), (0, 1))],
    4: [((1, 1), (0, 0), (0, 0)), ((7, 1), (0, 0), (0, 0)), ((7, 5), (0, 0), (0, 0)), ((1, 5), (0, 0), (0, 0))],
    5: [((3, 0), (0, -1), (0, 1)), ((2, 4), (1, 0), (-1, 0)), ((-3, 2), (1, 1), (-2, -2)), ((-3, -2), (-1, 1), (1, -1)), ((1, -5), (-1, -1), (1, 1))],
}


def curve(name, specs, closed, pen=None, xf=None, how='plain'):
    return build(D('curve', name, pen or ('both' if closed else 'line'), xf, cps=specs, closed=closed), how)


def segs_of(c):
    return cps_segs(c.control_points, c.closed)


def values(c):
    return [(cp.c.xy(), cp.dl.xy(), cp.dr.xy()) for cp in c.control_points]


def mix(a, b, t):
    return [tuple(oracle.lerp(p, q, t) for p, q in zip(u, v)) for u, v in zip(a, b)]


class World(object):
    """A model with the source somewhere, some neighbours, another model that uses the source as well"""
    def __init__(self, n, m, closed, place, xf=None, t_func=None, steps=None, force=True, how='plain'):
        pen = 'both' if closed else 'line'
        self.source = curve('c', CURVES[n], closed, pen, xf, how)
        self.neighbours = [build(single('rect')), curve('n', CURVES[3], True), build(holes('circle', ['rect', 'ellipse']))]
        top = Group('top', PENS['thin'](), xform=Transform().translate(1, 2))
        where = top
        if place in ('nested', 'deep'):
            for name in ('a', 'b')[:1 if place == 'nested' else 2]:
                g = Group(name, PENS['thin'](), xform=Transform().rotate(30))
                where.add(name, g)
                where = g
        if place == 'hole' or place == 'outside':
            big = build(re(LEAVES['circle'], name='k', p1=(-30, -30), p2=(30, 30), pen=pen))
            w = ElemWithHoles('w', PENS[pen](), big if place == 'hole' else self.source, [self.source, build(re(SMALL['rect'], pen=pen))] if place == 'hole' else [])
            where.add('first', self.neighbours[0])
            where.add('w', w)
            self.get = lambda: w.inside[0] if place == 'hole' else w.outside
        else:
            where.add('first', self.neighbours[0])
            where.add('c', self.source)
            where.add('last', self.neighbours[1])
            self.get = lambda: where.elems['c']
        top.add('end', self.neighbours[2])
        top.add_pt('p', Point(3, 4))
        self.top, self.where = top, where
        self.user = Group('user', PENS['thin']())
        self.user.add('c', self.source)
        self.names = self.listing()
        self.source_segs = segs_of(self.source)
        self.rest = [snapshot(e) for e in self.neighbours]
        self.t_func = t_func or (lambda t: t)
        self.steps = steps
        tf = Animation.hide_if(self.t_func, -5)
        self.exact = None
        if steps is None:
            self.target = curve('t', OTHER[m], closed, 'line', xf, how)
            self.targets = [self.target]
            self.morph = Morph(top, self.source, self.target, tf, *([] if force is True else [force]))
            self.times = [0, 1]
        else:
            self.targets = [curve('t%d' % i, (OTHER if i % 2 == 0 else CURVES)[k], closed, 'line', xf, how) for i, (_, k) in enumerate(steps)]
            self.times = [0] + [t for t, _ in steps]
            self.exact = snapshot([self.source] + self.targets)
            self.morph = MorphMultiStep(top, self.source, list(zip(self.times[1:], self.targets)), tf, *([] if force is True else [force]))
        self.target_segs = [oracle.segments([spec_xy(s) for s in (OTHER if i % 2 == 0 else CURVES)[k]], closed)
                            for i, k in enumerate([m] if steps is None else [k for _, k in steps])]
        self.closed = closed
        self.force = force
        self.specs = [CURVES[n]] + [(OTHER if i % 2 == 0 else CURVES)[k] for i, k in enumerate([m] if steps is None else [k for _, k in steps])]
        self.last = 'new'
        self.shown = self.get()
        require(self.shown is not self.source, 'the morph shows the source itself')
        self.kinds = [cp.kind for cp in self.shown.control_points]
        self.xf = snapshot(self.source.xform)
        self.n_cps = len(self.shown.control_points)

    def listing(self):
        return [p for p, _, _ in self.top.iter_elems()]

    def apply(self, op):
        what, t = op
        if what == 'update':
            self.morph.update(t)
            self.last = t if self.get() is self.shown else self.last
        elif what == 'restore':
            self.morph.restore()
            self.last = 'restored'
        elif what == 'drag':
            # Changing the source afterwards must not matter once it is restored, only its shape counts
            raise Disabled()

    def shape_at(self, t):
        """Index of the shape shown exactly at time t: 0 is the source, None for a mixture"""
        if t in self.times:
            return len(self.times) - 1 - self.times[::-1].index(t)
        if self.steps is not None:
            if t < self.times[0]:
                return 0
            if t > self.times[-1]:
                return len(self.times) - 1
        return None

    def fresh(self, t):
        """Control points shown at time t if nothing else has happened"""
        w = self.again()
        w.morph.update(t)
        return values(w.get())

    def check(self):
        # Source, targets and the rest of the model
        if self.steps is not None:
            equal('source and targets of several steps', snapshot([self.source] + self.targets), self.exact)
        check_same_shape('source', segs_of(self.source), self.source_segs)
        for i, (target, segs) in enumerate(zip(self.targets, self.target_segs)):
            check_same_shape('target %d' % i, segs_of(target), segs)
        equal('rest of the model', [snapshot(e) for e in self.neighbours], self.rest)
        equal('listing of the model', self.listing(), self.names)
        require(self.user.elems['c'] is self.source, 'the morph replaces the source in another model')
        require(self.top.elems['end'] is self.neighbours[2] and self.where.elems['first'] is self.neighbours[0], 'other elements are replaced')
        equal('points', snapshot(self.top.points), (('p', ('Point', (3.0, 4.0), 'p')),))
        equal('transform of the source', snapshot(self.source.xform), self.xf)
        e = self.get()
        if self.last == 'restored':
            require(e is self.source, 'restoring does not put the source back')
            return
        require(e is self.shown, 'another element is shown')
        equal('name', e.name, 'c')
        equal('style', e.penbrush, self.source.penbrush)
        equal('closed', e.closed, self.closed)
        equal('transform', snapshot(e.xform), self.xf)
        equal('number of control points', len(e.control_points), self.n_cps)
        t = 0 if self.last == 'new' else self.t_func(self.last)
        equal('kinds of the control points', [cp.kind for cp in e.control_points], self.kinds)
        if t is None or t < -5:
            for cp in e.control_points:
                require(min(abs(cp.c.x), abs(cp.c.y)) > 1e5, 'hidden morph shows a control point at %s', cp.c.xy())
            return
        shapes = [self.source_segs] + self.target_segs
        idx = self.shape_at(t) if self.last != 'new' else 0
        if idx is not None:
            check_same_shape('morph at %s' % t, segs_of(e), shapes[idx])
            return
        if self.steps is None:
            lo, hi = 0, 1
        else:
            lo = max(s for s in self.times if s <= t)
            hi = min(s for s in self.times if s > t)
        a, b = self.ends(lo, hi)
        self.check_order(lo, a)
        self.check_order(hi, b)
        same('morph at %s' % t, values(e), mix(a, b, (t - lo) / (hi - lo)))

    def check_order(self, t, vals):
        """Control points correspond in their order, of closed curves morphed in several steps starting with the one at the lower left"""
        specs = [tuple(tuple(v) for v in s[:3]) for s in self.specs[self.shape_at(t)]]
        if self.steps is not None and self.force and self.closed:
            if self.xf != snapshot(Transform()):
                return
            pts = [p for c, dl, dr in vals for p in (c, (c[0] + dl[0], c[1] + dl[1]), (c[0] + dr[0], c[1] + dr[1]))]
            corner = min(p[0] for p in pts), min(p[1] for p in pts)
            d = [dist(v[0], corner) for v in vals]
            require(d[0] <= min(d) + 1e-9, 'the control point at the lower left does not come first: %s', vals)
            if len(specs) == len(vals):
                k = min(range(len(specs)), key=lambda i: dist(specs[i][0], vals[0][0]))
                specs = specs[k:] + specs[:k]
        if len(specs) == len(vals):
            same('control points at %s' % t, vals, specs)

    def ends(self, lo, hi):
        if self.steps is None:
            return values(self.source), values(self.target)
        return self.fresh(lo), self.fresh(hi)

    def canon(self):
        return self.last, tuple(tuple(round(v, 9) for v in flat_all(values(self.get()))))


def flat_all(v):
    from mc.engine import flat
    return flat(v)


def world(*args, **kw):
    def make():
        w = World(*args, **kw)
        w.again = lambda: World(*args, **{**kw, 't_func': None})
        return w
    return make


def refused(case, obs):
    what, n, m, closed = case
    source, target = curve('c', CURVES[n], closed), curve('t', OTHER[m], closed)
    g = Group('top', PENS['thin']())
    g.add('x', build(single('rect')))
    sub = Group('s', PENS['thin']())
    g.add('s', sub)
    before = snapshot(g)
    shape, tshape = segs_of(source), segs_of(target)
    if what == 'absent':
        raises(MorphError, Morph, g, source, target, lambda t: t)
    elif what == 'absent multi':
        raises(MorphError, MorphMultiStep, g, source, [(0.5, target)], lambda t: t)
    elif what == 'lookalike':
        other = curve('c', OTHER[n], closed)
        sub.add('c', other)
        before = snapshot(g)
        raises(MorphError, Morph, g, source, target, lambda t: t)
        require(sub.elems['c'] is other, 'another curve is replaced')
    elif what == 'unequal':
        sub.add('c', source)
        before = snapshot(g)
        if n == m:
            mo = Morph(g, source, target, lambda t: t, False)
            mo.update(1)
            same('unforced morph at 1', values(sub.elems['c']), values(target))
            mo.restore()
        else:
            raises(MorphError, Morph, g, source, target, lambda t: t, False)
            raises(MorphError, Morph, g, source, target, lambda t: t, force=False)
            equal('number of control points', (len(source.control_points), len(target.control_points)), (n, m))
        require(sub.elems['c'] is source, 'the source is replaced')
    equal('model', snapshot(g), before)
    check_same_shape('source', segs_of(source), shape)
    check_same_shape('target', segs_of(target), tshape)
    return what, n, m


def far_hidden(case, obs):
    """Hiding removes all of a curve, however long its handles are"""
    size, steps, closed = case
    a, b = [curve(n, [((x, 0), (-size, -size), (size, size)), ((9, x), (size, -size), (-size, size)), ((5, 5), (0, size), (size, 0))], closed) for n, x in (('a', 0), ('b', 3))]
    g = Group('g', PENS['thin']())
    g.add('a', a)
    t_func = Animation.hide_if(lambda t: t, 0)
    m = MorphMultiStep(g, a, [(1.0, b)], t_func) if steps else Morph(g, a, b, t_func)
    for t in (0.5, -1, 1, -2, -3, 0):
        m.update(t)
        obs.step()
        e = g.elems['a']
        pts = [p.xy() for cp in e.control_points for p in (cp.c, cp.l, cp.r)]
        if t < 0:
            require(min(min(abs(x), abs(y)) for x, y in pts) > 1e5, 'hidden curve still has control points or handles at %s', pts)
            bb = e.bbox()
            require(not (bb.xl < 1e5 and bb.xh > -1e5 and bb.yl < 1e5 and bb.yh > -1e5), 'hidden curve has the box %s', bb)
        else:
            require(max(max(abs(x), abs(y)) for x, y in pts) <= 1.5 * size + 20, 'curve at %s not shown: %s', t, pts)
    return case


def run(ctx):
    depth = ctx.pick(3, 4)
    ops = [('update', t) for t in (0, 1, 0.25, 0.5, 2, -1, -9)] + [('restore', None)]
    combos = [(n, m, True) for n in CURVES for m in OTHER] + [(n, m, False) for n in (2, 3, 4, 5) for m in (2, 3, 4, 5)]
    for n, m, closed in combos:
        name = '%d to %d %s' % (n, m, 'closed' if closed else 'open')
        ctx.histories(name, world(n, m, closed, 'nested'), ops, depth if ctx.deep or (n, m) in ((3, 5), (5, 2), (3, 3)) else 2,
                      'updates, hiding and restoring of a morph between curves with these numbers of control points')
    for place in ('top', 'deep', 'hole', 'outside'):
        for closed in (True, False) if place in ('top', 'deep') else (True,):
            ctx.histories('%s %s' % (place, 'closed' if closed else 'open'), world(3, 4, closed, place, XFORMS['skew']), ops, depth,
                          'the source at another place of the model, with a transform of its own')
    ctx.histories('timed', world(4, 3, True, 'deep', t_func=lambda t: abs(t) / 2), ops, depth, 'with a timing function')
    ctx.histories('same length without adjustment', world(3, 3, True, 'nested', force=False), ops, depth, 'force off')
    for how in ('relative', 'live'):
        ctx.histories('3 to 5 ' + how, world(3, 5, True, 'nested', how=how), ops, depth, 'points and handles that depend on other points')
        ctx.histories('4 to 2 ' + how, world(4, 2, False, 'nested', how=how), ops, depth, 'points and handles that depend on other points')
    multi = [[(1, 3)], [(0.5, 4), (1, 2)], [(0.25, 2), (0.5, 5), (1.5, 3)], [(0.5, 3), (0.75, 4), (2, 1)], [(2, 4), (3, 4), (4, 4)], [(0.25, 1), (0.5, 3)]]
    multi += [[(0.5, 3), (0.503, 4), (1, 2)], [(0.001, 4), (0.002, 5), (0.5, 3)]]
    multi += [[(0, 3), (1, 2)], [(0.0, 1), (0.5, 5), (1, 3)]]
    close_ops = [('update', t) for t in (0, 0.001, 0.0015, 0.5, 0.5015, 0.503, 0.75, 1)] + [('restore', None)]
    mops = [('update', t) for t in (0, 1, 0.25, 0.375, 0.5, 0.75, 2, 2.5, 9, -1, -9)] + [('restore', None)]
    for i, steps in enumerate(multi):
        for n in (1, 3, 5):
            for closed in (True, False):
                if not closed and (n == 1 or any(k == 1 for _, k in steps)):
                    continue
                for force in (True, False) if n == 3 else (True,):
                    ctx.histories('steps %d from %d %s%s' % (i, n, 'closed' if closed else 'open', '' if force else ' not rotated'),
                                  world(n, 0, closed, ('nested', 'deep', 'hole')[i % 3] if closed else 'top', XFORMS['turn'] if i % 2 else None, steps=steps, force=force),
                                  close_ops if i in (6, 7) else mops, 2 if not ctx.deep else 3, 'morph in several steps: %s' % steps)
    ctx.sweep('hidden', [(s, n, c) for s in (1, 100, 1e4, 1e6, 1e7) for n in (False, True) for c in (True, False)], far_hidden, 'curves with long handles are hidden and shown')
    ctx.sweep('refused', [(w, n, m, c) for w in ('absent', 'absent multi', 'lookalike', 'unequal') for n in (2, 3, 5) for m in (2, 3, 4) for c in (True, False)],
              refused, 'the source is not in the model, or the curves are unequal and must not be adjusted')
    ctx.assume('Source and targets are equally closed and have equal transforms of their own. Elements of the model that are equal to the source or the '
               'morph (name included) count as occurrences of it. Morphs may add control points to source and target, their shapes stay the same.')
