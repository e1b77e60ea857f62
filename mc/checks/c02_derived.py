"""C02: derived points and vectors track what they depend on; snapshots do not"""
import math
from mc.engine import same, equal, require
from x7.geom.geom import *

POINTS = ['A', 'B', 'R1', 'R2', 'C1', 'C2', 'R3', 'RF', 'CN']
VECTORS = ['V1', 'V2', 'V3', 'V4', 'V5']


class World(object):
    def __init__(self):
        o = self.o = {}
        o['A'] = Point(1, 2)
        o['B'] = Point(-3, 0.5, 'B')
        o['R1'] = PointRelative(2, -1, o['A'])
        o['R2'] = PointRelative(0.5, 4, o['R1'], 'R2')
        o['C1'] = PointCalc(o['R1'], -1.5)
        o['h'] = PointRelative(1, 1, o['C1'])
        o['C2'] = PointCalc(o['h'], 2, 'C2')
        o['R3'] = PointRelative(-1, -1, o['C2'])
        o['RF'] = PointRelative.fromxy(5, 5, o['B'])
        o['CN'] = PointCalc(o['R2'], 0)
        o['V1'] = VectorRelative(o['R2'], o['B'])
        o['V2'] = VectorRelative(o['C1'], o['R3'])
        o['V3'] = VectorRelative(o['A'], o['A'])
        o['Z'] = PointRelative(0, 0, o['A'], 'Z')
        o['V4'] = VectorRelative(o['Z'], o['A'])    # Nowhere apart, but other points
        o['one'] = Point(1, 1)
        o['V5'] = VectorRelative(o['CN'], o['one'])
        # model: plain (x, y) | ('rel', dx, dy, base) | ('calc', rel, scale) | ('vec', p1, p2)
        self.m = dict(
            A=(1, 2), B=(-3, 0.5), R1=('rel', 2, -1, 'A'), R2=('rel', 0.5, 4, 'R1'), C1=('calc', 'R1', -1.5),
            h=('rel', 1, 1, 'C1'), C2=('calc', 'h', 2), R3=('rel', -1, -1, 'C2'), RF=('rel', 8, 4.5, 'B'),
            CN=('calc', 'R2', 0),
            V1=('vec', 'R2', 'B'), V2=('vec', 'C1', 'R3'), V3=('vec', 'A', 'A'),
            Z=('rel', 0, 0, 'A'), V4=('vec', 'Z', 'A'), V5=('vec', 'CN', 'one'), one=(1, 1))
        self.snaps = []     # (what, object, expected)
        self.n = 0

    def loc(self, name):
        d = self.m[name]
        if d[0] == 'rel':
            x, y = self.loc(d[3])
            return x + d[1], y + d[2]
        if d[0] == 'calc':
            _, dx, dy, base = self.m[d[1]]
            x, y = self.loc(base)
            return x + d[2] * dx, y + d[2] * dy
        if d[0] == 'vec':
            (x1, y1), (x2, y2) = self.loc(d[1]), self.loc(d[2])
            return x1 - x2, y1 - y2
        return d

    def apply(self, op):
        o, m = self.o, self.m
        what, arg = op[0], op[1:]
        if what == 'setxy':
            name, x, y = arg
            o[name].setxy(x, y)
            m[name] = (x, y)
        elif what == 'set':
            name, src = arg
            o[name].set(o[src])
            m[name] = self.loc(src)
        elif what == 'restore':
            name, src = arg
            o[name].restore(o[src])
            m[name] = self.loc(src)
        elif what == 'dx':
            name, dx, dy = arg
            o[name].dx, o[name].dy = dx, dy
            m[name] = ('rel', dx, dy, m[name][3])
        elif what == 'rebase':
            name, base = arg
            o[name].base = o[base]
            m[name] = m[name][:3] + (base,)
        elif what == 'scale':
            name, s = arg
            o[name].scale = s
            m[name] = ('calc', m[name][1], s)
        elif what == 'place':
            # A point at a position, relative to a point that may itself be derived
            base, x, y = arg
            self.n += 1
            new = 'RX%d' % self.n
            o[new] = PointRelative.fromxy(x, y, o[base])
            bx, by = self.loc(base)
            m[new] = ('rel', x - bx, y - by, base)
        elif what == 'snap':
            self.snap()
        elif what == 'copyrel':
            # A copy of a derived point is again derived from the same base, but has its own offset
            for name in ('R1', 'R2', 'C1'):
                self.n += 1
                new = '%s_copy%d' % (name, self.n)
                o[new] = o[name].copy()
                require(o[new] is not o[name], 'copy of %s is %s itself', name, name)
                m[new] = m[name]
        else:
            raise AssertionError(what)

    def snap(self):
        o = self.o
        k = Vector(0.25, -3)
        for name in POINTS:
            x, y = self.loc(name)
            for what, obj, want in [
                ('fixed()', o[name].fixed(), (x, y)),
                ('+ vector', o[name] + k, (x + 0.25, y - 3)),
                ('vector +', k + o[name], (x + 0.25, y - 3)),
                ('- vector', o[name] - k, (x - 0.25, y + 3)),
                ('- point', o[name] - Point(1, 1), (x - 1, y - 1)),
                ('point -', Point(1, 1) - o[name], (1 - x, 1 - y)),
                ('negated', -o[name], (-x, -y)),
                ('.v', o[name].v, (x, y)),
                ('mid', o[name].mid(Point(0, 2)), (x / 2, (y + 2) / 2)),
                ('round', round(o[name], 1), (round(x, 1), round(y, 1))),
            ]:
                self.snaps.append((what + ' of ' + name, obj, want))
        for name in ('A', 'B'):
            self.snaps.append(('copy of ' + name, o[name].copy(), self.loc(name)))
        for name in VECTORS:
            x, y = self.loc(name)
            for what, obj, want in [
                ('fixed()', o[name].fixed(), (x, y)),
                ('+ vector', o[name] + k, (x + 0.25, y - 3)),
                ('- vector', o[name] - k, (x - 0.25, y + 3)),
                ('* 2', o[name] * 2, (2 * x, 2 * y)),
                ('/ 2', o[name] / 2, (x / 2, y / 2)),
                ('negated', -o[name], (-x, -y)),
                ('normal', o[name].normal(), (y, -x)),
                ('.p', o[name].p, (x, y)),
                ('rotate', o[name].rotate(90), (-y, x)),
                ('+ point', o[name] + Point(1, 0), (x + 1, y)),
            ]:
                self.snaps.append((what + ' of ' + name, obj, want))

    def check(self):
        o = self.o
        k = Vector(2, -0.5)
        for name in [n for n in self.m if self.m[n][0] != 'vec']:
            x, y = self.loc(name)
            p = o[name]
            same(name + '.xy()', p.xy(), (x, y))
            same(name + '.x, .y', (p.x, p.y), (x, y))
            same('iter ' + name, tuple(p), (x, y))
            same(name + '.v', p.v.xy(), (x, y))
            same(name + ' + v', (p + k).xy(), (x + 2, y - 0.5))
            same('v + ' + name, (k + p).xy(), (x + 2, y - 0.5))
            same(name + ' - v', (p - k).xy(), (x - 2, y + 0.5))
            same('A - ' + name, (o['A'] - p).xy(), (self.loc('A')[0] - x, self.loc('A')[1] - y))
            same('-' + name, (-p).xy(), (-x, -y))
            same(name + '.fixed()', p.fixed().xy(), (x, y))
            same(name + '.copy()', p.copy().xy(), (x, y))
            same(name + '.mid', p.mid(Point(1, 1)).xy(), ((x + 1) / 2, (y + 1) / 2))
            same('round(%s, 2)' % name, round(p, 2).xy(), (round(x, 2), round(y, 2)))
            same('bbox of ' + name, BBox(p, p).as_tuple(), (x, y, x, y))
            require(p.close(Point(x, y)), '%s is not close to %r', name, (x, y))
        for name in VECTORS:
            x, y = self.loc(name)
            v = o[name]
            same(name + '.xy()', v.xy(), (x, y))
            same(name + '.x, .y', (v.x, v.y), (x, y))
            same('iter ' + name, tuple(v), (x, y))
            same(name + '.p', v.p.xy(), (x, y))
            same(name + '.fixed()', v.fixed().xy(), (x, y))
            same(name + '.copy()', v.copy().xy(), (x, y))
            same(name + ' + v', (v + k).xy(), (x + 2, y - 0.5))
            same('v - ' + name, (k - v).xy(), (2 - x, -0.5 - y))
            same('-' + name, (-v).xy(), (-x, -y))
            same(name + ' * 3', ((v * 3).xy(), (3 * v).xy(), (v / 4).xy()), (3 * x, 3 * y, 3 * x, 3 * y, x / 4, y / 4))
            same(name + '.length()', v.length(), math.hypot(x, y))
            same(name + '.dot', v.dot(k), 2 * x - 0.5 * y)
            same(name + '.cross', v.cross(k), -0.5 * x - 2 * y)
            same(name + '.normal', v.normal().xy(), (y, -x))
            equal('bool(%s)' % name, bool(v), bool(x or y))
            if x or y:
                same(name + '.unit()', v.unit().xy(), (x / math.hypot(x, y), y / math.hypot(x, y)))
                same(name + '.angle()', v.angle(), math.degrees(math.atan2(y, x)))
        for what, obj, want in self.snaps:
            same('earlier ' + what, obj.xy(), want)

    def canon(self):
        return tuple((n, self.loc(n)) for n in sorted(self.m)) + tuple(w for _, _, w in self.snaps[::7])


OPS = [
    ('setxy', 'A', 4, -1), ('setxy', 'A', 0, 0), ('set', 'A', 'R2'), ('restore', 'A', 'C2'),
    ('setxy', 'B', 2.5, 2), ('set', 'B', 'A'),
    ('dx', 'R1', 0, 3), ('dx', 'R2', -1, 0.5), ('dx', 'h', -2, 2), ('rebase', 'R1', 'B'), ('rebase', 'R3', 'A'),
    ('scale', 'C1', 0.5), ('scale', 'C2', -1), ('scale', 'CN', 1),
    ('snap',), ('copyrel',), ('place', 'R1', 5, 5), ('place', 'C2', -2, 0.5),
]


def chain(case, obs):
    """Chains of any length: relative and calculated points stacked n deep"""
    word, moves = case
    base = Point(0.5, -1)
    pts = [base]
    defs = []       # per point: function of position of base -> position
    x, y = 0.5, -1
    exp = [lambda bx, by: (bx, by)]
    last_rel = None
    for i, w in enumerate(word):
        if w == 'f':
            # placed by its position rather than its offset
            bx, by = pts[-1].xy()
            dx, dy = 2 - bx, i + 1.5 - by
            p = PointRelative.fromxy(2, i + 1.5, pts[-1])
            f = exp[-1]
            exp.append(lambda bx, by, f=f, dx=dx, dy=dy: (f(bx, by)[0] + dx, f(bx, by)[1] + dy))
            last_rel = (p, f, dx, dy)
        elif w == 'r':
            dx, dy = i + 1, -0.5 * i + 2
            p = PointRelative(dx, dy, pts[-1])
            f = exp[-1]
            exp.append(lambda bx, by, f=f, dx=dx, dy=dy: (f(bx, by)[0] + dx, f(bx, by)[1] + dy))
            last_rel = (p, f, dx, dy)
        else:
            if last_rel is None:
                return None
            rel, f, dx, dy = last_rel
            s = 0.5 - i
            p = PointCalc(rel, s)
            exp.append(lambda bx, by, f=f, dx=dx, dy=dy, s=s: (f(bx, by)[0] + s * dx, f(bx, by)[1] + s * dy))
        pts.append(p)
        defs.append(w)
    vecs = [VectorRelative(p, q) for p, q in zip(pts, pts[1:])] + [VectorRelative(pts[-1], pts[0])]
    ends = [(i, i + 1) for i in range(len(pts) - 1)] + [(len(pts) - 1, 0)]
    for x, y in moves:
        base.setxy(x, y)
        obs.step()
        for p, f in zip(pts, exp):
            same('chain %s' % word, p.xy(), f(x, y))
        for v, (i, j) in zip(vecs, ends):
            (px, py), (qx, qy) = exp[i](x, y), exp[j](x, y)
            same('difference in chain %s' % word, v.xy(), (px - qx, py - qy))
    obs.state(word, moves)


def run(ctx):
    ctx.histories('moves', World, OPS, ctx.pick(3, 4),
                  'all sequences of moves, re-basing, re-scaling and snapshots; every accessor and operator of every '
                  'derived point and vector compared with the positions computed from the current base positions')
    import itertools
    words = [''.join(w) for n in range(1, ctx.pick(7, 10)) for w in itertools.product('rc', repeat=n)]
    words += [''.join(w) for n in range(1, ctx.pick(6, 8)) for w in itertools.product('rcf', repeat=n) if 'f' in w]
    moves = [((0.5, -1), (3, 3), (3, 3), (-1e3, 0)), ((0, 0), (0.5, -1))]
    ctx.sweep('chains', [(w, m) for w in words for m in moves], chain, 'all chains of derived points')
