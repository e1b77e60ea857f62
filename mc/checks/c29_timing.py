"""C29: timing functions have the promised shape for every time"""
import itertools
import math
import numpy as np
from fractions import Fraction
from mc.engine import same, equal, require, raises, near, Disabled, Violation
from x7.geom.anim import Animation

GRID = [i / 16 for i in range(-8, 25)] + [1e-9, 1 - 1e-9, 1 / 3, 2 / 3, 0.1, 0.9, 7.3, -5.1, 1000]


def line(keys, t):
    """Exact linear interpolation"""
    t = Fraction(t)
    keys = [(Fraction(a), Fraction(b)) for a, b in keys]
    if t <= keys[0][0]:
        return float(keys[0][1])
    if t >= keys[-1][0]:
        return float(keys[-1][1])
    for (a, v), (b, w) in zip(keys, keys[1:]):
        if a <= t <= b:
            return float(v + (w - v) * (t - a) / (b - a))
    raise KeyError(t)


def number(what, v):
    require(isinstance(v, (int, float, np.floating)) and math.isfinite(v), '%s is %r', what, v)
    return float(v)


def check_orders(what, make, times, exact=None):
    """The value at a time depends on that time only, not on what was asked before"""
    alone = [make()(t) for t in times]
    for order in (range(len(times)), reversed(range(len(times))), [i for j in range(len(times)) for i in (j, 0, j)]):
        f = make()
        for i in order:
            v = f(times[i])
            require(v == alone[i] and type(v) is type(alone[i]), '%s at %r: %r after other calls, %r alone', what, times[i], v, alone[i])
    f, g = make(), make()
    for i, t in enumerate(times):
        g(times[-1 - i])
        require(f(t) == alone[i], '%s at %r depends on another function', what, t)
    return alone


def check_interpolate(case, obs):
    keys, = case
    times = sorted(set(GRID + [k[0] for k in keys] + [(a[0] + b[0]) / 2 for a, b in zip(keys, keys[1:])]))
    mine = [tuple(k) for k in keys]
    vals = check_orders('interpolate', lambda: Animation.interpolate(mine), times)
    equal('keys after use', mine, [tuple(k) for k in keys])
    f = Animation.interpolate(mine)
    for t, v in zip(times, vals):
        same('interpolate%r at %r' % (keys, t), number('value', v), line(keys, t), 1e-12)
    for t, v in keys:
        require(f(t) == v, 'misses key %r: %r', (t, v), f(t))
    mine[0] = (0.5, 77)         # the function does not depend on the list any more
    for t in times[::5]:
        require(f(t) == line(keys, t) or near(f(t), line(keys, t), 1e-12), 'depends on the list of keys')
    close = [(t + a, t + b) for t, _ in keys for a, b in itertools.product((-0.01, -1e-6, 0, 1e-9, 5e-4, 0.002), repeat=2)]
    for tx, ty in list(itertools.product(times[::4], times[1::5])) + close:
        got = f((tx, ty))
        require(isinstance(got, tuple) and len(got) == 2, 'pair gives %r', got)
        same('pair %r' % ((tx, ty),), got, (line(keys, tx), line(keys, ty)), 1e-12)
        obs.state(keys, tx, ty)
    same('array time', f(np.float64(0.3)), line(keys, 0.3), 1e-12)
    same('int time', f(1), line(keys, 1), 1e-12)


def check_ramp(case, obs):
    how, start, end = case
    make = {'up': Animation.ramp_up, 'down': Animation.ramp_down}[how]
    args = [] if start is None else [start] if end is None else [start, end]
    s, e = 0.25 if start is None else start, 0.75 if end is None else end
    lo, hi = (0, 1) if how == 'up' else (1, 0)
    if s > e:
        return
    times = sorted(set(GRID + [s, e]))
    vals = check_orders('ramp', lambda: make(*args), times)
    for t, v in zip(times, vals):
        v = number('ramp', v)
        if s == e == t:
            require(v in (0, 1), 'ramp_%s%r at %r is %r', how, (s, e), t, v)
        elif t <= s:
            equal('ramp_%s%r at %r' % (how, (s, e), t), v, lo)
        elif t >= e:
            equal('ramp_%s%r at %r' % (how, (s, e), t), v, hi)
        else:
            same('ramp_%s%r at %r' % (how, (s, e), t), v, lo + (hi - lo) * (t - s) / (e - s), 1e-12)
        obs.state(how, s, e, t)
    if args and s < e:
        kw = make(start=s, end=e)
        require([kw(t) for t in times] == vals, 'by keyword the ramp is another one')
        f = make(s, e)
        for tx, ty in itertools.product(times[::4], times[::3]):
            same('pair', f((tx, ty)), (f(tx), f(ty)), 1e-15)


def check_periodic(case, obs):
    which, freq, offset, scale, shift = case
    args = {k: v for k, v in zip(('frequency', 'offset', 'scale', 'shift'), (freq, offset, scale, shift)) if v is not None}
    fq, of, sc, sh = (d if v is None else v for v, d in zip((freq, offset, scale, shift), (1, 0, 1, 0)))
    seen = []

    def own(x):
        seen.append(x)
        return x * x - 1
    make = {'sin': lambda: Animation.sin(**args), 'cos': lambda: Animation.cos(**args), 'sin_cos': lambda: Animation.sin_cos(**args),
            'own': lambda: Animation.periodic(own, **args), 'periodic': lambda: Animation.periodic(math.sin, **args),
            'positions': lambda: Animation.sin(fq, of, sc, sh), 'positions2': lambda: Animation.sin_cos(fq, of, sc, sh),
            'positions3': lambda: Animation.periodic(math.cos, fq, of, sc, sh)}[which]
    vals = check_orders(which, make, GRID)
    f = make()
    for t, v in zip(GRID, vals):
        angle = math.radians(360 * fq * t + of)
        x, y = math.sin(angle) * sc + sh, math.cos(angle) * sc + sh
        want = {'sin': x, 'cos': y, 'sin_cos': (x, y), 'own': (angle * angle - 1) * sc + sh, 'periodic': x, 'positions': x, 'positions2': (x, y),
                'positions3': y}[which]
        same('%s%r at %r' % (which, args, t), v, want, 1e-9)
        if fq and which != 'own':
            for n in (1, -1, 3):
                same('%s%r one period after %r' % (which, args, t), f(t + n / fq), v, 1e-8)
        obs.state(*case, t)


def check_identity(case, obs):
    for t in GRID + [(0.5, 2), (0, 0)]:
        f = Animation.identity()
        require(f(t) is t, 'identity of %r is %r', t, f(t))
        f = Animation.identity_xy()
        equal('identity_xy', f(t), t if isinstance(t, tuple) else (t, t))
        obs.state(t)


FUNCS = {
    'double': lambda: (lambda t: 2 * t), 'const': lambda: (lambda t: 5), 'identity': Animation.identity, 'up': Animation.ramp_up,
    'down': lambda: Animation.ramp_down(0.1, 0.3), 'sin': Animation.sin, 'cos': lambda: Animation.cos(2, 30, -1, 0.5),
    'steps': lambda: Animation.interpolate([(0, -1), (0.5, 2), (1, 0)]), 'minus': lambda: (lambda t: -t),
}


def check_xy(case, obs):
    a, b = case
    fx, fy = FUNCS[a](), FUNCS[b]()
    vals = check_orders('xy', lambda: Animation.xy(FUNCS[a](), FUNCS[b]()), GRID)
    for t, v in zip(GRID, vals):
        require(isinstance(v, tuple) and len(v) == 2, 'xy gives %r', v)
        equal('xy(%s, %s) at %r' % (a, b, t), v, (fx(t), fy(t)))
        equal('xy(%s) at %r' % (a, t), Animation.xy(FUNCS[a]())(t), (fx(t), t))
        equal('xy(y_func=%s) at %r' % (b, t), Animation.xy(y_func=FUNCS[b]())(t), (t, fy(t)))
        equal('xy() at %r' % t, Animation.xy()(t), (t, t))
        obs.state(a, b, t)


def check_hide(case, obs):
    name, threshold = case
    f = FUNCS[name]()
    make = (lambda: Animation.hide_if(FUNCS[name]())) if threshold is None else (lambda: Animation.hide_if(FUNCS[name](), threshold))
    limit = 0 if threshold is None else threshold
    vals = check_orders('hide_if', make, GRID)
    for t, v in zip(GRID, vals):
        want = f(t)
        if want < limit:
            require(v is None, 'hide_if(%s, %r) at %r: %r, which is below the threshold', name, threshold, t, v)
        else:
            require(v is not None and v == want, 'hide_if(%s, %r) at %r: %r, expected %r', name, threshold, t, v, want)
        obs.state(name, threshold, t)
    twice = Animation.hide_if(lambda t: f(t), 0.25 if threshold is None else threshold)
    for t in GRID:
        equal('keyword', Animation.hide_if(f, threshold=0.25 if threshold is None else threshold)(t), twice(t))


def check_plot(case, obs):
    """Plots show the values of the functions"""
    import matplotlib.pyplot as plt
    names, args = case
    shown = []
    show = plt.show
    plt.show = lambda *a, **k: shown.append([(li.get_label(), list(map(float, li.get_xdata())), list(map(float, li.get_ydata()))) for li in plt.gca().lines])
    try:
        Animation.plot([(n, FUNCS[n]() if n != 'both' else Animation.sin_cos()) for n in names], *args)
    finally:
        plt.show = show
        plt.close('all')
    require(len(shown) == 1, 'shown %d times', len(shown))
    start, end = args if args else (0, 1)
    want = [(n, FUNCS[n]()) for n in names if n != 'both']
    if 'both' in names:
        i = names.index('both')
        want[i:i] = [('both.x', Animation.sin()), ('both.y', Animation.cos())]
    equal('labels', [s[0] for s in shown[0]], [n for n, _ in want])
    for (label, xs, ys), (n, f) in zip(shown[0], want):
        same('%s: first and last time' % n, (xs[0], xs[-1]), (start, end), 0.011)
        require(len(xs) == len(ys) > (end - start) * 50, '%s: %d points', n, len(xs))
        for x, y in zip(xs, ys):
            same('%s at %r' % (n, x), y, f(x), 1e-12)
        obs.state(label, args)


def run(ctx):
    ctx.assume('Keys of interpolations are in increasing order of time; ramps start and end within 0..1, the start not after the end')
    vals = ctx.pick((0, 1, -2.5), (0, 1, -2.5, 0.3))
    times = ctx.pick((0, 0.25, 0.5, 1, -0.5, 2), (0, 0.25, 0.5, 1, -0.5, 2, 1 / 3, 0.75))
    keys = [tuple(zip(sorted(ts), vs)) for n in (1, 2, 3, 4) for ts in itertools.combinations(times, n) for vs in itertools.product(vals, repeat=n)
            if n < 4 or ctx.deep or len(set(vs)) == 3]
    keys += [tuple(zip(ts, vs)) for ts in ((0, 0.5, 0.501, 1), (0, 1e-6, 1), (0.25, 0.25 + 1e-9, 0.250001, 0.5), (-1000, 0, 1e-4, 1e5), (0.3, 0.3001))
             for vs in itertools.product((0, 1000, -2.5), repeat=len(ts))]
    # Numbers that need all of their digits
    keys += [tuple(zip(ts, vs)) for ts in ((0,), (0, 1), (0.1, 0.7), (0, 1 / 3, 1), (0.2, 0.3, 0.4)) for vs in itertools.product((0.1, -0.3, 1 / 3, 1e-3 / 7), repeat=len(ts))]
    ctx.sweep('interpolate', [(k,) for k in keys], check_interpolate, 'all curves of up to 4 keys, at all times of the grid, scalar and in pairs')
    ends = (0, 0.1, 0.25, 1 / 3, 0.5, 0.75, 0.9, 1)
    ctx.sweep('ramps', [(h, s, e) for h in ('up', 'down') for s in (None,) + ends for e in (None,) + ends if s is not None or e is None], check_ramp, 'ramps')
    freqs = ctx.pick((None, 1, 2.5, -1), (None, 1, 2, 2.5, -1, 1 / 3, 0))
    ctx.sweep('periodic', [(w, f, o, sc, sh) for w in ('sin', 'cos', 'sin_cos', 'own', 'periodic', 'positions', 'positions2', 'positions3') for f in freqs
                           for o in (None, 0, 90, -45, 400) for sc in (None, 0, 1, -2, 0.5) for sh in (None, 0, 0.5, -3)], check_periodic, 'periodic functions')
    ctx.sweep('identity', [()], check_identity)
    ctx.sweep('pairs', [(a, b) for a in FUNCS for b in FUNCS], check_xy, 'combinations of two functions')
    ctx.sweep('hiding', [(n, t) for n in FUNCS for t in (None, 0, 1, 0.5, -1, 5, 1e-9, 0.25, 2)], check_hide, 'functions hidden below thresholds')
    ctx.sweep('plots', [(n, a) for n in (['sin'], ['both'], ['up', 'both', 'steps'], ['double', 'minus']) for a in ((), (0, 2), (-1, 0.5), (0.25, 0.5))],
              check_plot, 'plots of functions')
