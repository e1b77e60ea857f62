"""C20: animated positions depend only on the current time, never on the history"""
import math
import numpy as np
from mc.engine import same, equal, require, raises, Disabled, Violation
from mc.oracle import *
from mc.models import *
from x7.geom.anim import (Animation, AnimationGeneric, AnimationLinear, AnimationLinearFunc, AnimationSinusoidal,
                          AnimationCircular, AnimationHolder)

TAU = 2 * math.pi


def lin(o, q, t):
    tx, ty = t if isinstance(t, tuple) else (t, t)
    return o[0] + tx * (q[0] - o[0]), o[1] + ty * (q[1] - o[1])


def sinus(o, q, t, f, off):
    return lin(o, q, (1 - math.cos(TAU * f * t + math.radians(off))) / 2)


def circ(o, r, t, f, off):
    a = TAU * f * t + off
    return o[0] + r * math.sin(a), o[1] + r * math.cos(a)


def spiral(t, orig, point):
    if isinstance(t, tuple):
        t = t[0]
    return orig.x + t * t, orig.y - 3 * t


class World(object):
    """Points a, b (animated), q (target), rel (relative to q), z (bystander), d (depends on a)"""
    def __init__(self, parts, nested=False):
        self.p = dict(a=Point(1, -2, 'first'), b=Point(0.5, 4), q=Point(7, 3), z=Point(-9, 9))
        p = self.p
        p['rel'] = PointRelative(-1, 2, p['q'])
        p['d'] = PointRelative(10, 20, p['a'])
        p['calc'] = PointCalc(p['d'], 2)
        self.cp = ControlPoint(p['a'], Vector(1, 2), VectorRelative(p['b'], p['a']))
        self.pos = {k: (p[k].x, p[k].y) for k in 'abqz'}
        self.orig = {}
        self.calls = []
        self.holder = AnimationHolder()
        self.rules = []
        into = self.holder
        for part in parts:
            a, rule = self.make(*part)
            into.add(a)
            self.rules.append(rule)
            if nested and into is self.holder:
                # The first one directly, then all others in a holder inside
                into = AnimationHolder()
                self.holder.add(into)

    def make(self, kind, who, *args):
        pt = self.p[who]
        o = self.pos[who]
        target = args[0] if args and args[0] in ('q', 'rel', 'b', 'a', 'z') else None
        tgt = self.p[target] if target else None

        def at():
            if target == 'rel':
                return self.pos['q'][0] - 1, self.pos['q'][1] + 2
            return self.pos[target]
        if kind == 'linear':
            return AnimationLinear(pt, tgt), (who, lambda t: lin(o, at(), t))
        if kind == 'func':
            f = args[1]
            return AnimationLinearFunc(pt, tgt, f), (who, lambda t: lin(o, at(), f(t)))
        if kind == 'sin':
            f, off = args[1:]
            return AnimationSinusoidal(pt, tgt, frequency=f, offset=off), (who, lambda t: sinus(o, at(), t, f, off))
        if kind == 'sin default':
            return AnimationSinusoidal(pt, tgt), (who, lambda t: sinus(o, at(), t, 1, 0))
        if kind == 'circle':
            r, f, off = args
            return AnimationCircular(pt, r, f, off), (who, lambda t: circ(o, r, t, f, off))
        if kind == 'circle default':
            r, f = args
            return AnimationCircular(pt, r, f), (who, lambda t: circ(o, r, t, f, 0))
        if kind == 'generic':
            def func(t, orig, point):
                self.calls.append((t, orig.xy(), point is pt, o))
                return spiral(t, orig, point)
            return AnimationGeneric(pt, func), (who, lambda t: spiral(t, Point(*o), None))
        raise KeyError(kind)

    def apply(self, op):
        what, arg = op
        if what == 'update':
            self.holder.update(arg)
            for who, rule in self.rules:
                self.pos[who] = rule(arg)
            for t, orig, is_point, o in self.calls:
                equal('time given to the function', t, arg)
                require(is_point, 'the function is called with another point')
                same('origin given to the function', orig, o)
            n = sum(1 for who, rule in self.rules if 'spiral' in rule.__code__.co_names)
            require(len(self.calls) == n, 'the function is called %d times instead of %d', len(self.calls), n)
            self.calls.clear()
        elif what == 'drag':
            who, xy = arg
            self.p[who].setxy(*xy)
            self.pos[who] = xy
        elif what == 'snapshot':
            self.kept = [(p.fixed(), p.xy()) for p in self.p.values()]

    def check(self):
        for k in 'abqz':
            same('position of point %r' % k, self.p[k].xy(), self.pos[k])
            same('position of point %r' % k, (self.p[k].x, self.p[k].y), self.pos[k])
        ax, ay = self.pos['a']
        same('relative point', self.p['d'].xy(), (ax + 10, ay + 20))
        same('reflected point', self.p['calc'].xy(), (ax + 20, ay + 40))
        same('control point', [self.cp.c, self.cp.l, self.cp.r], [(ax, ay), (ax + 1, ay + 2), self.pos['b']])
        same('target', self.p['rel'].xy(), (self.pos['q'][0] - 1, self.pos['q'][1] + 2))
        equal('name', self.p['a'].name, 'first')
        for p, xy in getattr(self, 'kept', ()):
            same('snapshot of a point', p.xy(), xy)

    def canon(self):
        return tuple((k, round(x, 9), round(y, 9)) for k, (x, y) in sorted(self.pos.items()))


def swap(t):
    return (t, 1 - t)


CONFIGS = {
    'nothing': [],
    'linear': [('linear', 'a', 'q')],
    'linear to a relative point': [('linear', 'a', 'rel')],
    'function': [('func', 'a', 'q', lambda t: t * t)],
    'function per axis': [('func', 'a', 'rel', swap)],
    'timing curves': [('func', 'a', 'q', Animation.ramp_up()), ('func', 'b', 'z', Animation.xy(Animation.ramp_down(), Animation.sin()))],
    'sine': [('sin default', 'a', 'q')],
    'sine with parameters': [('sin', 'a', 'rel', 2.0, 90), ('sin', 'b', 'q', 0.5, -30)],
    'circle': [('circle default', 'a', 3, 1)],
    'circles with parameters': [('circle', 'a', 2.5, 2, 1.0), ('circle', 'b', -1, 0.5, -2)],
    'generic': [('generic', 'a')],
    'two points': [('linear', 'a', 'q'), ('sin', 'b', 'rel', 1, 0)],
    'chase': [('linear', 'q', 'z'), ('linear', 'a', 'q'), ('sin', 'b', 'rel', 1, 10)],
    'chase backwards': [('linear', 'a', 'q'), ('linear', 'b', 'a'), ('linear', 'q', 'z')],
    'same point twice': [('linear', 'a', 'q'), ('circle', 'a', 2, 1, 0), ('generic', 'b'), ('linear', 'b', 'a')],
    'same point twice, other order': [('circle', 'a', 2, 1, 0), ('linear', 'a', 'q'), ('linear', 'b', 'a'), ('generic', 'b')],
    'everything': [('linear', 'a', 'q'), ('sin', 'b', 'rel', 2, 45), ('circle', 'q', 4, 1, 0.5), ('generic', 'z')],
}
TIMES = [0, 1, 0.25, 0.5, 1/3, -0.5, 2, 1.0, 7.125]


class Single(object):
    """One animation updated directly"""
    def __init__(self, part):
        self.w = World([])
        self.a, (self.who, self.rule) = self.w.make(*part)

    def apply(self, op):
        what, arg = op
        if what == 'update':
            self.a.update(arg)
            self.w.pos[self.who] = self.rule(arg)
            self.w.calls.clear()
        else:
            self.w.apply(op)

    def check(self):
        self.w.check()
        same('remembered origin', self.a.orig.xy(), World([]).pos[self.who])

    def canon(self):
        return self.w.canon()


def refuse(case, obs):
    kind, bad = case
    pt = {'relative': PointRelative(1, 2, Point(0, 0)), 'calc': PointCalc(PointRelative(1, 2, Point(0, 0)), 2), 'tuple': (1, 2), 'vector': Vector(1, 2)}[bad]
    make = {'linear': lambda: AnimationLinear(pt, Point(0, 0)), 'func': lambda: AnimationLinearFunc(pt, Point(0, 0), lambda t: t),
            'sin': lambda: AnimationSinusoidal(pt, Point(0, 0)), 'circle': lambda: AnimationCircular(pt, 1, 1),
            'generic': lambda: AnimationGeneric(pt, spiral)}[kind]
    raises((ValueError, TypeError), make)
    return kind, bad


def run(ctx):
    plain = [('update', t) for t in TIMES]
    more = [('drag', ('q', (20, -6))), ('drag', ('a', (100, 100))), ('drag', ('z', (0, 1))), ('drag', ('q', (1, -2))), ('drag', ('q', (2, -4))), ('snapshot', None)]
    pairs = [('update', (0.25, 0.75)), ('update', (1, 0))]
    depth = ctx.pick(3, 4)
    for name, parts in CONFIGS.items():
        kinds = {p[0] for p in parts}
        ops = plain + more + (pairs if kinds <= {'linear', 'generic'} else [])
        ctx.histories(name, lambda: World(parts), ops, depth, 'times in any order, interrupted by dragging points, with a holder of: ' + name)
        if len(parts) > 1:
            ctx.histories(name + ', nested holder', lambda: World(parts, True), ops, 2, 'a holder inside a holder')
    singles = [('linear', 'a', 'q'), ('sin', 'a', 'rel', 3, 180), ('circle', 'a', 0, 1, 0), ('circle', 'b', 1.5, -2, 3), ('func', 'a', 'q', swap)]
    for part in singles:
        ctx.histories('single %s %s' % part[:2] + str(part[2:3]), lambda: Single(part), plain + more[:3], depth, 'one animation updated directly')
    ctx.sweep('refused', [(k, b) for k in ('linear', 'func', 'sin', 'circle', 'generic') for b in ('relative', 'calc', 'tuple', 'vector')], refuse,
              'only plain points can be animated')
    ctx.assume('Targets do not depend on the point that is animated towards them. Offsets are degrees for sinusoidal and radians for circular animations.')
