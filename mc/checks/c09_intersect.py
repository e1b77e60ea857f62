"""C09: intersections of curves, self-intersections"""
import itertools
import math
from mc.engine import same, equal, require, Disabled
from mc.oracle import *
from mc.models import *
from mc.crossings import *
from x7.geom.bezier import *
from x7.geom.geom import *
from x7.geom.model import ElemCurve


def points_of(a, b, c, d, **kw):
    """Both forms of the result, which must agree: [(t, s, (x, y))]"""
    par = bez_intersect(a, b, c, d, **kw)
    pts = bez_intersect(a, b, c, d, as_points=True, **kw)
    par = list(zip(*par)) if len(par) else []
    require(len(par) == len(pts), '%d pairs of parameters, %d points', len(par), len(pts))
    require(all(isinstance(p, BasePoint) for p in pts), 'points are %r', pts)
    return [(float(t), float(s), tuple(map(float, p.xy()))) for (t, s), p in zip(par, pts)]


def cross(case, obs):
    sa, sb, how, (scale, ox, oy) = case
    m = (scale, 0, ox, 0, scale, oy)
    specs = [(mat_apply(m, s[0]), mat_linear(m, s[1]), mat_linear(m, s[2])) for s in sa + sb]
    a, b = curve_segs(specs[:2], False)[0], curve_segs(specs[2:], False)[0]
    cps = [make_cp(s, how) for s in specs]
    joint = [(1.0, 0.0)] if spec_xy(specs[1])[0] == spec_xy(specs[2])[0] else []
    want, clear = crossings(a, b, (lambda t, s: t > 0.96 and s < 0.04) if joint else None)
    # Contacts that are not plain crossings (tangent, at an end point, nearly touching) are not decided here
    if not clear:
        raise_none = None
        obs.state('undecided')
        return raise_none
    before = repr(cps)
    size = max(1, *(abs(v) for p in a + b for v in p))
    for endpoints in (False, True):
        res = points_of(*cps, endpoints=endpoints)
        obs.step()
        inner = [r for r in res if not any(abs(r[0] - t) < 1e-6 and abs(r[1] - s) < 1e-6 for t, s in joint)]
        for t, s, p in res:
            require(0 <= t <= 1 and 0 <= s <= 1, 'parameters outside [0, 1]: %r', (t, s))
            require(dist(bez_pt(a, t), p) <= 1e-9 * size, 'point %r is not on the first curve at %r', p, t)
            require(dist(bez_pt(b, s), p) <= 1e-7 * size, 'point %r is not on the second curve at %r', p, s)
        for t, s, p, _ in want:
            n = sum(abs(t - r[0]) < 1e-6 and abs(s - r[1]) < 1e-6 for r in res)
            require(n == 1, 'crossing at %r, parameters %r, is reported %d times', p, (t, s), n)
        equal('number of crossings', len(inner), len(want))
        equal('joint reported', len(res) - len(inner), len(joint) if endpoints else 0)
    equal('control points afterwards', repr(cps), before)
    # The other way round
    back = points_of(cps[2], cps[3], cps[0], cps[1])
    if joint:
        back = [r for r in back if not (r[0] < 1e-6 and r[1] > 1 - 1e-6)]
    equal('number of crossings, swapped', len(back), len(want))
    same('crossings, swapped', sorted(r[2] for r in back), sorted(w[2] for w in want), 1e-6)
    obs.state(len(want), bool(joint), [round(w[0], 2) for w in want])


def shared(case, obs):
    """Curves that start, or end, at the same place and go different ways from there: that is no joint of consecutive curves"""
    sa, sb, where, how, (scale, ox, oy) = case
    m = (scale, 0, ox, 0, scale, oy)
    specs = [(mat_apply(m, s[0]), mat_linear(m, s[1]), mat_linear(m, s[2])) for s in sa + sb]
    a, b = curve_segs(specs[:2], False)[0], curve_segs(specs[2:], False)[0]
    end = 0.0 if where == 'start' else 1.0
    u, v = bez_tangent(a, end), bez_tangent(b, end)
    sine = abs(u[0] * v[1] - u[1] * v[0]) / (math.hypot(*u) * math.hypot(*v))
    want, clear = crossings(a, b, lambda t, s: abs(t - end) < 0.04 and abs(s - end) < 0.04)
    if not clear or sine < 0.2:
        obs.state('undecided')
        return
    cps = [make_cp(s, how) for s in specs]
    for endpoints in (False, True):
        res = points_of(*cps, endpoints=endpoints)
        obs.step()
        at_end = [r for r in res if abs(r[0] - end) < 1e-6 and abs(r[1] - end) < 1e-6]
        equal('number of times the common %s of the curves is reported' % where, len(at_end), 1)
        same('common ' + where, at_end[0][2], a[0] if where == 'start' else a[3], 1e-6)
        equal('number of other crossings', len(res) - 1, len(want))
    obs.state(len(want), where)


def near_ends(case, obs):
    """Curves that cross very near to the ends of both: not a joint, and reported once"""
    sa, sb, (ta, tb), eps, how = case
    t, s = abs(ta - eps), abs(tb - eps)
    a = curve_segs(sa, False)[0]
    b = curve_segs(sb, False)[0]
    p, q = bez_pt(a, t), bez_pt(b, s)
    sb = [((c[0] + p[0] - q[0], c[1] + p[1] - q[1]), dl, dr) for c, dl, dr in sb]
    b = curve_segs(sb, False)[0]
    u, v = bez_tangent(a, t), bez_tangent(b, s)
    sine = abs(u[0] * v[1] - u[1] * v[0]) / (math.hypot(*u) * math.hypot(*v))
    want, clear = crossings(a, b, lambda x, y: abs(x - ta) < 0.04 and abs(y - tb) < 0.04)
    if sine < 0.2 or not clear:
        obs.state('undecided')
        return
    cps = [make_cp(c, how) for c in (*sa, *sb)]
    for endpoints in (False, True):
        for x, y, res in ((t, s, points_of(*cps, endpoints=endpoints)),
                          (s, t, points_of(cps[2], cps[3], cps[0], cps[1], endpoints=endpoints))):
            n = sum(abs(x - r[0]) < 1e-9 + eps / 100 and abs(y - r[1]) < 1e-9 + eps / 100 for r in res)
            require(n == 1, 'crossing at parameters %r is reported %d times: %r', (x, y), n, res)
            equal('number of other crossings', len(res) - 1, len(want))
            obs.step()
    obs.state(len(want), ta, tb, eps)


KINDS = 'smooth', 'sharp', 'very-smooth'


def loops(case, obs):
    specs, how, as_elem = case
    segs = curve_segs(specs, True)
    found, clear = self_crossings(segs)
    if not clear:
        obs.state('undecided')
        return
    if any(i == j and not (t < 0.5 < s or s < 0.5 < t) for (i, t), (j, s), _ in found):
        # A small loop within one half of a segment is beyond what the function looks for
        obs.state('undecided loop')
        return
    cps = [make_cp(s, how) for s in specs]
    before = repr(cps)
    if as_elem:
        m = (1, 0.5, 2, 0, -2, -1)
        inv = Transform(m)
        e = ElemCurve('e', PENS['both'](), [cp.transform(Transform()) for cp in cps], True, xform=Transform(m))
        segs = map_segs(m, segs)
        eb = repr(e), repr(e.xform)
        out = e.self_intersect()
        equal('element afterwards', (repr(e), repr(e.xform)), eb)
        for o in out:
            require(o.closed and o.penbrush == e.penbrush, 'replacement %r has another style', o)
            same('transform of replacement', o.xform.as_6tuple(), IDENT)
        require(len({o.name for o in out}) == len(out), 'names of the replacements: %r', [o.name for o in out])
        out = [o.control_points for o in out]
    else:
        out = bez_self_intersect(cps)
        equal('control points afterwards', repr(cps), before)
    obs.step()
    if not found:
        equal('curve without self-crossing', out, [])
        obs.state('simple')
        return
    require(len(out) >= 2, '%d crossings, but %d loops', len(found), len(out))
    pieces = []
    for n, loop in enumerate(out):
        ls = cps_segs(loop, True)
        pieces += ls
        size = size_of(segs)
        f, c = self_crossings(ls)
        f = [x for x in f if x[0][1] > 0.01 or x[1][1] > 0.01]
        require(not f or not c, 'loop %d crosses itself at %r', n, f)
    check_same_shape('the loops together', pieces, segs)
    la, lb = arc_length(pieces), arc_length(segs)
    require(abs(la - lb) <= 1e-5 * lb, 'the loops have length %s, the curve %s', la, lb)
    # every loop goes through a crossing
    size = size_of(segs)
    xs = [p for _, _, p in found]
    if as_elem:
        xs = [mat_apply(m, p) for p in xs]
    for loop in out:
        require(any(dist(tuple(cp.c.xy()), x) < 1e-6 * size for cp in loop for x in xs), 'a loop without crossing: %r', loop)
    for x in xs:
        n = sum(dist(tuple(cp.c.xy()), x) < 1e-6 * size for loop in out for cp in loop)
        equal('number of times the loops go through the crossing %r' % (x,), n, 2)
    anchors = [tuple(cp.c.xy()) for cp in cps] if not as_elem else [mat_apply(m, tuple(cp.c.xy())) for cp in cps]
    for loop in out:
        for cp in loop:
            p = tuple(cp.c.xy())
            if any(dist(p, x) < 1e-6 * size for x in xs):
                equal('kind of the corner at the crossing', cp.kind, 'sharp')
            else:
                kinds = [c.kind for c, a in zip(cps, anchors) if dist(p, a) < 1e-9 * size]
                kinds += ['smooth'] if 'very-smooth' in kinds else []
                require(not kinds or cp.kind in kinds, 'control point %r was of kind %r', cp, kinds)
    obs.state(len(found), len(out), len(specs))


def run(ctx):
    ctx.assume('decided for curves that meet in transversal crossings only; tangent, coincident and barely touching curves are outside '
               'the claim (the intersection library gives up on them)')
    an = [(0, 0), (2.1, 0.3), (1, 2)]
    bn = [(-0.5, 1.1), (1.9, 1.4), (1.2, -1)]
    hs = ctx.pick([(0, 1), (2, 0.5), (-1, -2)], [(0, 1), (2, 0.5), (-1, -2), (3, 3), (0, 0)])

    def family(anchors):
        cps = [(a, tuple(-v for v in h), h) for a in anchors for h in hs]
        return [(p, q) for p in cps for q in cps if p[0] < q[0]] + [(q, p) for p in cps[:len(hs)] for q in cps[-2:]]
    a, b = family(an), family(bn)
    cases = [(x, y, 'plain', (1, 0, 0)) for x in a for y in b]
    cases += [(x, y, how, f) for x in a[::4] for y in b[::3] for how, f in (('live', (100, 50, -30)), ('relative', (0.01, 0, 0)))]
    cps = [(p, tuple(-v for v in h), h) for p in an + bn[:1] for h in hs + [(-4, 1)]]
    cases += [((p, q), (q, r), 'plain', (1, 0, 0)) for p in cps for q in cps for r in cps if len({p[0], q[0], r[0]}) == 3][::ctx.pick(5, 1)]
    ctx.sweep('pairs', cases, cross, 'every pair of curves of the family against an independent crossing finder')
    # Curves that wind through each other, with up to nine crossings
    cases = []
    for w, u, v, e in itertools.product((30, 20, 24), (-20, -12), (0, 1), (0.2, 1)):
        sa = (((0, 1), (0, 0), (w, 10 * e)), ((10, 9), (u - 10, v - 9), (0, 0)))
        for dx, dy, k in itertools.product((0, 0.3, -0.7), (0, 0.4), (1, 0.8)):
            sb = tuple(tuple((q[1] * k + (dx if n == 0 else 0), q[0] + (dy if n == 0 else 0)) for n, q in enumerate(s)) for s in sa)
            for how, f in (('plain', (1, 0, 0)),) if dx else (('plain', (1, 0, 0)), ('live', (0.1, 5, -3))):
                cases.append((sa, sb, how, f))
                cases.append((sa, sb[::-1] and tuple((c, r, l) for c, l, r in sb[::-1]), how, f))
    ctx.sweep('winding', cases, cross, 'curves that cross each other up to nine times')
    cps = [(p, tuple(-v for v in h), h) for p in an[1:] + bn for h in hs]
    cases = []
    for n, (p, q) in enumerate((p, q) for p in cps for q in cps if p[0] != q[0]):
        for h, k in ((hs[0], hs[1]), (hs[1], hs[2]), (hs[2], hs[0])):
            x, y = [((0, 0), tuple(-v for v in g), g) for g in (h, k)]
            cases.append(((x, p), (y, q), 'start', 'plain', (1, 0, 0)))
            cases.append(((p, x), (q, y), 'end', 'live' if n % 2 else 'relative', (50, 20, -10)))
    ctx.sweep('shared ends', cases[::ctx.pick(3, 1)], shared, 'curves that start or end together, otherwise different')
    arms = [(((0, 0), (0, 0), h), (q, k, (0, 0))) for q in ((3, 0.3), (-1, 2)) for h in hs[:3] for k in ((-1, 0.5), (0, -2))]
    cases = [(x, y, ends, eps, 'plain' if n % 2 else 'live') for n, (x, y) in enumerate(itertools.product(arms, arms))
             for ends in itertools.product((0, 1), repeat=2) for eps in ctx.pick((1e-2, 1e-4, 1e-6), (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7))]
    ctx.sweep('near the ends', cases, near_ends, 'curves crossing near the ends of both')
    cps = [((0, 0), h) for h in ((1, 1), (-1, 1.2), (3, -2))] + [((4, 0.2), h) for h in ((1, 1.5), (-1.3, 1), (-3, -4))] + \
          [((1.7, 3), h) for h in ((-2, 0.3), (2, 0.1), (0.2, -5))] + [((2.2, -2.3), h) for h in ((-2, 0.2), (2.2, 0), (0.3, 3))]
    cps = [(p, tuple(-v for v in h), h) for p, h in cps]
    cases = []
    for n in (2, 3, 4):
        for ps in itertools.permutations(range(4), n):
            if ps[0] != min(ps):
                continue
            for hsel in itertools.product(range(3), repeat=n):
                cases.append((tuple(cps[3 * p + h] for p, h in zip(ps, hsel)), 'plain', False))
    def kinds(specs, n):
        return tuple(s + (KINDS[(n // 3 ** i) % 3],) for i, s in enumerate(specs))
    cases = [(kinds(c[0], n), *c[1:]) for n, c in enumerate(cases)]
    cases += [(c[0], how, True) for c in cases[::9] for how in ('plain',)]
    # Chains of up to twelve loops: a wave there, and back mirrored
    for n, k, as_elem in itertools.product(ctx.pick((3, 5, 9, 13), range(3, 20)), (2, 3), (False, True)):
        wave = [((10 * i, 0), (-k, -6 if i % 2 else 6), (k, 6 if i % 2 else -6)) for i in range(n)]
        back = [((10 * i, 1 if i % 2 else -1), (k, 6 if i % 2 else -6), (-k, -6 if i % 2 else 6)) for i in reversed(range(n))]
        cases.append((tuple(wave + back), 'plain', as_elem))
    ctx.sweep('loops', cases, loops, 'every closed curve of the family: crossings found independently, loops retrace the curve once')
