"""C27: recorded test data round-trips and approximate matching honours tolerance"""
import io
import itertools
from mc.engine import same, equal, require, raises, fail, near, show, Disabled, Violation
from mc.oracle import *
from mc.models import *
from x7.geom.geom import BBox, Point, PointRelative, PointCalc, Vector, VectorRelative
from x7.geom.bezier import ControlPoint
from x7.geom.colors import Pen, Brush, PenBrush
from x7.geom.transform import Transform
from x7.geom import testing as geom_testing
from x7.geom.drawing import DrawingContext
from x7.testing.support import Pickler, PicklerExtensionImage, RecordedData
import x7.testing.extended as extended
from PIL import Image


def pickler():
    return Pickler([PicklerExtensionImage, geom_testing.PicklerExtensionGeom])


# -- recording

GEOM = {
    'point': lambda: Point(1, 2), 'named': lambda: Point(-1.5, 2e20, 'its "name"'), 'third': lambda: Point(1 / 3, 1e-300),
    'relative': lambda: PointRelative(1, 2, Point(3, -4)), 'relative2': lambda: PointRelative(0.1, 2, PointRelative(1, 1, Point(3, -4))),
    'calc': lambda: PointCalc(PointRelative(1, 2, Point(3, 4)), 0.75),
    'vector': lambda: Vector(0.1, -7), 'null': lambda: Vector(), 'between': lambda: VectorRelative(Point(1, 2), Point(5, 4)),
    'cp': lambda: ControlPoint(Point(1, 2), Vector(3, 4), Vector(5, 6), 'sharp'),
    'cp smooth': lambda: ControlPoint(Point(1 / 7, 2), Vector(-1, 0.5), Vector(1, -0.5)),
    'cp relative': lambda: ControlPoint(PointRelative(1, 2, Point(3, -4)), Vector(3, 4), Vector(5, 6), 'very-smooth'),
    'cp calc': lambda: ControlPoint(PointCalc(PointRelative(1, 2, Point(3, 4)), 2), VectorRelative(Point(1, 2), Point(5, 4)), Vector()),
    'box': lambda: BBox(1, 2, 3.5, 4), 'box none': lambda: BBox(None), 'box empty': lambda: BBox(1, 2, 1, 2),
    'pen': lambda: Pen('red', 1.5), 'pen rgb': lambda: Pen((1, 2, 3), -2), 'brush': lambda: Brush('blue'), 'brush rgba': lambda: Brush((1, 2, 3, 4)),
    'penbrush': lambda: PenBrush(Pen('green', 0.5), '#808080'), 'penbrush none': lambda: PenBrush(None), 'penbrush fill': lambda: PenBrush(None, 'red'),
    'xform': lambda: Transform((1.6, 2.5, 3.4, 4.3, 5.2, 6.1)), 'identity': lambda: Transform(),
}
PLAINS = {
    'int': lambda: 3, 'float': lambda: -0.1, 'text': lambda: "it's \"x\" %s\n", 'true': lambda: True, 'none': lambda: None,
    'pair': lambda: (1, 'a'), 'empty': lambda: [], 'nothing': lambda: {}, 'tuple': lambda: (),
    'image': lambda: Image.frombytes('RGBA', (2, 1), bytes(range(8))), 'image L': lambda: Image.frombytes('L', (1, 3), b'abc'),
    'dict': lambda: {1: 'x', 2: [3]},
}


def value(v):
    """Everything that makes up a value"""
    if isinstance(v, BBox):
        return 'BBox', v.xl, v.yl, v.xh, v.yh
    if isinstance(v, PointRelative):
        return 'PointRelative', v.dx, v.dy, v.name, value(v.base)
    if isinstance(v, PointCalc):
        return 'PointCalc', v.scale, v.name, value(v.base)
    if isinstance(v, VectorRelative):
        return 'VectorRelative', repr(v), tuple(v.xy())
    if isinstance(v, Vector):
        return 'V', tuple(v.xy())
    if isinstance(v, ControlPoint):
        return 'CP', value(v.c), value(v.dl), value(v.dr), v.kind
    if isinstance(v, Image.Image):
        return 'Image', v.mode, v.size, v.tobytes()
    if isinstance(v, (list, tuple)):
        return type(v).__name__, tuple([value(x) for x in v])
    if isinstance(v, dict):
        return 'dict', tuple(sorted(((k, value(x)) for k, x in v.items()), key=repr))
    return snapshot(v)


def round_trip(data, obs):
    """dump and load a recording"""
    before = value(data)
    p = pickler()
    out = io.StringIO()
    p.dump_dict(data, out)
    text = out.getvalue()
    require(value(data) == before, 'recording changed the data')
    try:
        got = p.load(io.StringIO(text))
    except Exception as err:
        raise Violation('what was recorded does not load: %s: %s in %s' % (type(err).__name__, err, show(text)))
    if value(got) != before:
        raise Violation('recorded %s, loaded %s' % (show(before), show(value(got))))
    for k, v in data.items():
        if not isinstance(v, Image.Image):
            require(got[k] == v and v == got[k], '%s loads as something not equal: %s', show(v), show(got[k]))
    again = io.StringIO()
    pickler().dump_dict(got, again)
    require(again.getvalue() == text or 'pickled(' in text, 'recording what was loaded gives another text: %s / %s', show(text), show(again.getvalue()))
    obs.state(text)
    obs.step(3)
    return text


NESTS = {
    'plain': lambda v: v, 'list': lambda v: [v], 'tuple': lambda v: (v,), 'dict': lambda v: {'k': v}, 'numbered': lambda v: {2: v, 1: 0},
    'lists': lambda v: [[v], []], 'list tuple': lambda v: [(1, v), (2, v)], 'dict list': lambda v: {'a': [v], 'b': v}, 'dicts': lambda v: {'a': {'b': {'c': v}}},
    'tuple dict': lambda v: ({'a': v}, 'x'), 'list dict': lambda v: [{'a': [v]}, 'x'], 'mixed': lambda v: [v, 'text', 1.5], 'mixed2': lambda v: [None, v],
}
ELEMENTS = {
    'rect': lambda: build(single('rect')), 'rect turned': lambda: build(single('rect2', 'skew')), 'rrect': lambda: build(single('rrect')),
    'ellipse': lambda: build(single('ellipse', 'move')), 'curve': lambda: build(single('curve')), 'open': lambda: build(single('open', 'turn')),
    'holes': lambda: build(holes('rect', ['ellipse', 'curve'], 'turn')), 'group': lambda: build(nestings()[2]), 'empty group': lambda: build(group('g', [])),
    'nested': lambda: build(nestings()[6]), 'hidden': lambda: build(nestings()[4]), 'odd name': lambda: build(single('rect', name='%s "it\'s" \\ \n 50%')),
}
ENTRIES = {
    'entry': lambda: ('a.b', build(single('rect')), Transform(XFORMS['skew'])), 'entry group': lambda: ('g', build(nestings()[2]), Transform()),
    'not entry': lambda: ('a.b', Transform(), build(single('rect'))), 'longer entry': lambda: ('a', build(single('rect')), Transform(), 1),
    'point entry': lambda: ('a.b', Point(1, 2), Transform(XFORMS['skew'])), 'numbered entry': lambda: (1, build(single('rect')), Transform(XFORMS['skew'])),
    'unplaced entry': lambda: ('a.b', build(single('rect')), None), 'elements entry': lambda: ('a', build(single('rect')), build(single('circle'))),
    'text entry': lambda: ('a', 'b', 'c'), 'short entry': lambda: ('a', build(single('rect'))),
    'entry list': lambda: ['a.b', build(single('rect')), Transform(XFORMS['skew'])],
}
ALL = {**GEOM, **PLAINS, **ELEMENTS, **ENTRIES}


def check_value(case, obs):
    name, nests = case
    v = ALL[name]()
    for n in nests:
        v = NESTS[n](v)
    round_trip({'case:%s' % name: v, 'other': 1}, obs)


def check_catalogue(case, obs):
    d, n = case
    round_trip({'k': NESTS[n](build(d))}, obs)


def check_lists(case, obs):
    names, how = case
    vals = [ALL[n]() for n in names]
    if how == 'dict':
        round_trip(dict(zip('abcdef', vals)), obs)
    elif how == 'dict in dict':
        round_trip({'x': {'y': dict(zip('abcdef', vals)), 'z': vals[0]}, 'w': vals[-1]}, obs)
    elif how == 'tuple':
        round_trip({'k': tuple(vals)}, obs)
    elif how == 'list':
        round_trip({'k': vals}, obs)
    else:
        round_trip({'k': {'l': [vals, [vals[0]]]}}, obs)


def check_listing(case, obs):
    """Listings of (name, element, transform), as made while traversing models"""
    entries, depth = case
    data = [(n, ELEMENTS[e](), Transform(XFORMS[x] or IDENT)) for n, e, x in entries]
    for _ in range(depth):
        data = {'deeper': data}
    round_trip({'k': data}, obs)


def check_iter(case, obs):
    """What traversing a model yields is recorded and loaded"""
    d, = case
    e = build(d)
    data = [(path, elem, xform.copy()) for path, elem, xform in e.iter_elems('root', Transform((1, 0, 3, 0, 2, 0)))]
    text = round_trip({'k': data, 'elems': [x for _, x, _ in data]}, obs)
    require('pickled(' not in text, 'elements are recorded in a form that cannot be read')


def check_known(case, obs):
    """Every kind of element has a name under which it is loaded"""
    names = pickler().vars_for_load()
    for kind in ('ElemCurve', 'ElemRectangle', 'ElemRectangleRounded', 'ElemEllipse', 'ElemWithHoles', 'Group', 'BBox', 'Point', 'Vector', 'ControlPoint',
                 'Pen', 'Brush', 'PenBrush', 'Transform', 'PointRelative', 'VectorRelative'):
        require(kind in names, 'no %s', kind)
        equal('class', names[kind].__name__, kind)
        obs.state(kind)


# -- comparing

def case_class():
    class Case(geom_testing.TestCaseGeomExtended):
        SAVE_MATCH = False

        def runTest(self):
            pass
    return Case


def the_case():
    return case_class()()


BASES = (0, 1, -3.5, 1e6)
TOLERANCES = [dict(), dict(places=0), dict(places=1), dict(places=2), dict(places=3), dict(places=9), dict(places=11), dict(delta=1e-10), dict(delta=1e-12), dict(delta=0), dict(delta=0.1), dict(delta=0.5),
              dict(delta=1e-3), dict(delta=2)]
STEPS = [0, 6e-13, 1.5e-12, 6e-11, 2e-10, 5e-10, 4e-8, 4.9e-8, 5.1e-8, 6e-8, 1e-7, 3e-4, 4.99e-4, 5.01e-4, 1e-3, 1.01e-3, 4.9e-3, 5.1e-3, 0.0499, 0.0501, 0.0999, 0.1001, 0.25, 0.4999, 0.5,
         0.5001, 1, 2, 2.001, 100]


def accept(a, b, tol):
    """Python's rule for numbers that are almost equal"""
    if a == b:
        return True
    if 'delta' in tol:
        return abs(a - b) <= tol['delta']
    return round(abs(a - b), tol.get('places', 7)) == 0


def judge(t, first, second, want, tol):
    before = value([first, second])
    got = t.almostEqual(first, second, **tol)
    if want:
        require(got is True, 'almostEqual(%r, %r, %r): %s', first, second, tol, got)
        t.assertAlmostEqual(first, second, **tol)
    else:
        require(isinstance(got, str) and got, 'almostEqual(%r, %r, %r): %r', first, second, tol, got)
        raises(t.failureException, t.assertAlmostEqual, first, second, **tol)
    require(value([first, second]) == before, 'comparing changed the values')


KINDS = {
    'point': (2, lambda v, kind: Point(*v)), 'named': (2, lambda v, kind: Point(v[0], v[1], 'n')),
    'relative': (2, lambda v, kind: PointRelative(v[0], v[1], Point(0, 0))),
    'vector': (2, lambda v, kind: Vector(*v)),
    'cp': (6, lambda v, kind: ControlPoint(Point(v[0], v[1]), Vector(v[2], v[3]), Vector(v[4], v[5]), kind)),
}


def check_almost(case, obs):
    """One coordinate differs"""
    kind, base, pos, how = case
    n, make = KINDS[kind]
    t = the_case()
    for step in STEPS:
        for sign in (1, -1):
            for tol in TOLERANCES:
                a = [base + 0.25 * i for i in range(n)]
                b = list(a)
                b[pos] += sign * step
                want = accept(a[pos], b[pos], tol)
                p, q = make(a, 'smooth'), make(b, 'smooth')
                if how == 'list':
                    p, q = [make(a, 'smooth'), p], [make(a, 'smooth'), q]
                elif how == 'tuple':
                    p, q = (p, 1), (q, 1)
                elif how == 'deep':
                    p, q = [[1, 'x'], [make(a, 'smooth'), (p,)]], [[1, 'x'], [make(a, 'smooth'), (q,)]]
                judge(t, p, q, want, tol)
                obs.step()
                obs.state(want, step, repr(tol), pos)


def check_almost_two(case, obs):
    """Two coordinates differ: both have to be within the tolerance"""
    kind, i, j = case
    n, make = KINDS[kind]
    t = the_case()
    for tol, (small, mid, large) in ((dict(delta=0.5), (0.1, 0.4, 0.6)), (dict(places=1), (0.01, 0.049, 0.06)), (dict(), (1e-9, 4e-8, 1e-6))):
        for si in (small, mid, large, -small, -mid, -large):
            for sj in (small, mid, large, -small, -mid, -large):
                a = [0.0] * n
                b = list(a)
                b[i] += si
                b[j] += sj
                judge(t, make(a, 'sharp'), make(b, 'sharp'), abs(si) != large and abs(sj) != large, tol)
                obs.state(i, j, si, sj)


def check_almost_kinds(case, obs):
    t = the_case()
    a, b, tol = case
    cps = {k: ControlPoint(Point(1, 2), Vector(3, 4), Vector(5, 6), k) for k in ('smooth', 'sharp', 'very-smooth')}
    vals = {**cps, 'point': Point(1, 2), 'vector': Vector(1, 2), 'number': 1, 'text': 'x', 'list': [1, 2], 'pair': (1, 2), 'longer': [1, 2, 3],
            'points': [Point(1, 2)], 'points2': [Point(1, 2), Point(3, 4)], 'vectors': [Vector(1, 2)]}
    judge(t, vals[a], vals[b], a == b, tol)
    judge(t, [vals[a]], [vals[b]], a == b, tol)
    obs.state(a, b)


SMALL_STEPS = (1e-16, 1e-14, 1e-13, 1e-12)
LARGE_STEPS = (1e-9, 1e-6, 0.1, 5)


def check_explain(case, obs):
    """Explaining a mismatch: never fails, and calls values close only when they are"""
    kind, base, pos = case
    n, make = KINDS[kind]
    t = the_case()
    for step in (0,) + SMALL_STEPS + LARGE_STEPS:
        for sign in (1, -1):
            a = [base + 0.25 * i for i in range(n)]
            b = list(a)
            b[pos] += sign * step
            new, old = make(a, 'smooth'), make(b, 'smooth')
            got = t.matchExact(new, old)
            if a == b:
                require(got is True, 'equal values do not match: %r', got)
            else:
                require(isinstance(got, str), 'different values %r, %r match: %r', new, old, got)
                close = 'Close' in got
                require(close or 'Diff' in got, 'neither close nor different: %r', got)
                require(close == (abs(step) < 1e-10), '%r and %r are %s', new, old, 'close' if close else 'different')
            lists = t.matchExact([new, new, old], [new, old, old])
            if a == b:
                require(lists is True, 'equal lists do not match: %r', lists)
            else:
                require(isinstance(lists, str) and lists.count('Match') == 2 and lists.count('Close' if abs(step) < 1e-10 else 'Diff ') == 1,
                        'explanation of lists: %s', lists)
            obs.step()
            obs.state(step, pos)
    for k in ('sharp', 'very-smooth') if kind == 'cp' else ():
        a = [base + 0.25 * i for i in range(n)]
        got = t.matchExact(make(a, 'smooth'), make(a, k))
        require(isinstance(got, str) and 'Diff' in got, 'control points of different kinds: %r', got)


def check_explain_two(case, obs):
    """Differences in two coordinates"""
    kind, i, j = case
    n, make = KINDS[kind]
    t = the_case()
    for si, sj in itertools.product(SMALL_STEPS + LARGE_STEPS, repeat=2):
        a = [0.0] * n
        b = list(a)
        b[i], b[j] = si, -sj
        got = t.matchExact(make(b, 'sharp'), make(a, 'sharp'))
        require(isinstance(got, str) and ('Close' in got) == (si < 1e-10 and sj < 1e-10), '%r, %r: %s', si, sj, got)
        obs.state(si, sj)


def check_explain_any(case, obs):
    """Any two recorded values of the same type, alone and in lists"""
    a, b = case
    t = the_case()
    p, q = ALL[a](), ALL[b]()
    if type(p) is not type(q) and not (isinstance(p, (int, str)) and isinstance(q, (int, str))):
        want = False
    else:
        want = p == q
    for new, old in ((p, q), ([p], [q]), ((1, p), (1, q)), ([p, q], [q, p]), ([p, p], [p])):
        got = t.matchExact(new, old)
        if want and not (isinstance(new, list) and len(new) != len(old)):
            require(got is True, '%s does not match itself: %s', a, got)
        else:
            require(isinstance(got, str) and got, '%s matches %s: %r', a, b, got)
            require('Close' not in got, '%s is close to %s: %s', a, b, got)
    obs.state(want, a, b)


# -- images and plots against recorded data

class Recorded(object):
    """Stands in for the recorded data of a module"""
    def __init__(self):
        self.new = False
        self.data = {}

    def get(self, cls, func, case):
        return self.data.get((cls.__qualname__, func, case), RecordedData.NONE)

    def put(self, cls, func, case, new_data, patch=False):
        self.data[cls.__qualname__, func, case] = new_data


def images():
    yield 'white', Image.new('RGBA', (4, 3), 'white')
    im = Image.new('RGBA', (4, 3), 'white')
    im.putpixel((3, 2), (255, 255, 255, 254))
    yield 'last', im
    im = Image.new('RGBA', (4, 3), 'white')
    im.putpixel((0, 0), (255, 254, 255, 255))
    yield 'first', im
    yield 'size', Image.new('RGBA', (3, 4), 'white')
    yield 'mode', Image.new('RGB', (4, 3), 'white')
    yield 'copy', Image.new('RGBA', (4, 3), 'white')


class Stub(object):
    """Nothing is shown on a screen"""
    def __enter__(self):
        self.show = Image.Image.show
        Image.Image.show = lambda *a, **k: None
        self.had = RecordedData.data.get(__name__)
        self.rec = RecordedData.data[__name__] = Recorded()
        return self.rec

    def __exit__(self, *exc):
        Image.Image.show = self.show
        if self.had is None:
            del RecordedData.data[__name__]
        else:
            RecordedData.data[__name__] = self.had


def check_images(case, obs):
    first, second = case
    ims = dict(images())
    with Stub() as rec:
        t = the_case()
        err = raises(t.failureException, lambda: t.assertMatchImage(ims[first], func='f'))
        require('no recorded data' in str(err), 'missing recording: %s', err)
        rec.put(type(t), 'f', '0', ims[first])
        rec.put(type(t), 'f', 'other', ims[second])
        t.assertMatchImage(ims[first], func='f')
        t.assertMatchImage(ims[second], case='other', func='f')
        if ims[first] == ims[second]:
            t.assertMatchImage(ims[second], func='f')
        else:
            raises(t.failureException, lambda: t.assertMatchImage(ims[second], func='f'))
            raises(t.failureException, lambda: t.assertMatchImage(ims[first], case='other', func='f'))
        obs.step(5)
        obs.state(first, second)


def plots():
    import matplotlib.pyplot as plt
    return {
        'line': lambda: plt.plot([0, 1], [0, 1]),
        'line2': lambda: plt.plot([0, 1], [1, 0]),
        'box': lambda: plt.plot([0, 1, 1, 0], [0, 0, 1, 0]),
        'title': lambda: (plt.plot([0, 1], [0, 1]), plt.title('A TITLE')),
        'axes': lambda: (plt.axes().plot([0, 1], [0, 1])),
    }


SETTINGS = ('axes.titley', 'axes.titlepad')


def check_plots(case, obs):
    import matplotlib.pyplot as plt
    first, second, shrink, titles = case
    draw = plots()
    saved = [plt.rcParams[s] for s in SETTINGS]
    try:
        plt.rcParams['axes.titley'], plt.rcParams['axes.titlepad'] = titles
        settings = dict(plt.rcParams)

        def restored(what):
            now = dict(plt.rcParams)
            diff = [k for k in settings if now[k] != settings[k]]
            require(not diff, '%s: plot settings %s are %s, were %s', what, diff, [now[k] for k in diff], [settings[k] for k in diff])
            require(not plt.get_fignums(), '%s: figures left open', what)

        plt.close('all')
        with Stub() as rec:
            t = the_case()
            rec.new = True
            with t.assertMatchPlot(shrink):
                draw[first]()
            restored('recording')
            equal('recorded under', [(k[1], k[2]) for k in rec.data], [('check_plots', '0')])
            im = list(rec.data.values())[0]
            require(isinstance(im, Image.Image) and im.mode == 'RGB', 'recorded %r', im)
            equal('size', im.size, (int(640 // shrink), int(480 // shrink)))
            rec.new = False
            with t.assertMatchPlot(shrink):
                draw[first]()
            restored('matching')
            with t.assertMatchPlot(shrink, func='check_plots', case='0'):
                draw[first]()
            restored('matching')

            def other():
                with t.assertMatchPlot(shrink, func='check_plots'):
                    draw[second]()

            if first == second or {first, second} == {'line', 'axes'}:
                other()
            else:
                raises(t.failureException, other)
            restored('comparing with another plot')

            def missing():
                with t.assertMatchPlot(shrink, case='none'):
                    draw[first]()
            raises(t.failureException, missing)
            restored('comparing without recording')

            def broken():
                with t.assertMatchPlot(shrink, func='check_plots'):
                    draw[first]()
                    raise ZeroDivisionError
            raises((ZeroDivisionError, t.failureException), broken)
            restored('a failing plot')
        obs.step(6)
        obs.state(*case)
    finally:
        for s, v in zip(SETTINGS, saved):
            plt.rcParams[s] = v
        plt.close('all')


def check_simple_dc(case, obs):
    size, = case
    t = case_class()
    dc = t.simple_dc() if size is None else t.simple_dc(size)
    n = size or 1000
    im = dc.image()
    equal('size', im.size, (n, n))
    equal('mode', im.mode, 'RGBA')
    equal('colours', im.getcolors(), [(n * n, (255, 255, 255, 255))])
    equal('matrix', tuple(dc.matrix.as_6tuple()), IDENT)
    equal('points per curve', dc.points_per_curve, 5)
    other = t.simple_dc(n)
    require(other is not dc and other.matrix is not dc.matrix and other.image() is not im, 'contexts share state')
    obs.state(size)


def run(ctx):
    ctx.assume('Recorded data contains finite numbers; elements are recorded with fixed points (relative points of elements are recorded at their place)')
    deep = ctx.deep
    nests = [(n,) for n in NESTS] + [(a, b) for a in NESTS for b in NESTS if a != 'plain' and b != 'plain']
    if deep:
        nests += [n for n in itertools.product([n for n in NESTS if n != 'plain'], repeat=3)]
    ctx.sweep('values', [(v, n) for v in ALL for n in nests], check_value, 'record and load every kind of value in nested containers')
    ctx.sweep('models', [(d, n) for d in catalogue(deep) for n in ('plain', 'list', 'dict list')], check_catalogue, 'record and load the catalogue of models')
    names = ['point', 'named', 'cp', 'box', 'penbrush', 'xform', 'int', 'text', 'none', 'image', 'empty', 'rect', 'group', 'empty group', 'holes', 'relative', 'calc', 'entry', 'longer entry', 'point entry', 'numbered entry', 'unplaced entry']
    hows = ['dict', 'dict in dict', 'tuple', 'list', 'deep']
    ctx.sweep('collections', [(c, h) for r in ctx.pick((2,), (2, 3)) for c in itertools.product(names, repeat=r) for h in hows], check_lists,
              'lists, tuples and dicts of several values of any kind')
    labels = ['/', 'a.b', '%s 50% "q"', "it's"]
    entries = [(n, e, x) for n in labels for e in ELEMENTS for x in ('none', 'skew')]
    pairs = [(e,) for e in entries] + [c for c in itertools.product(
        [(n, e, x) for n, e, x in entries if n in ('a.b', '%s 50% "q"') and (deep or x == 'skew')], repeat=2)]
    ctx.sweep('listings', [(p, k) for p in pairs for k in range(3)], check_listing, 'lists of (name, element, transform) in dicts of several depths')
    ctx.sweep('traversals', [(d,) for d in catalogue(deep)], check_iter, 'record what a traversal of a model yields')
    ctx.sweep('names', [()], check_known, 'all kinds can be loaded')
    ctx.sweep('almost one', [(k, b, p, h) for k in KINDS for b in BASES for p in range(KINDS[k][0]) for h in ('plain', 'list', 'tuple', 'deep')], check_almost,
              'one coordinate differs, below, at and above the tolerance')
    ctx.sweep('almost two', [(k, i, j) for k in KINDS for i in range(KINDS[k][0]) for j in range(KINDS[k][0]) if i < j], check_almost_two, 'two coordinates differ')
    kinds = ['smooth', 'sharp', 'very-smooth', 'point', 'vector', 'number', 'text', 'list', 'pair', 'longer', 'points', 'points2', 'vectors']
    ctx.sweep('almost kinds', [(a, b, t) for a in kinds for b in kinds for t in TOLERANCES], check_almost_kinds, 'different kinds of values never match')
    ctx.sweep('explain', [(k, b, p) for k in KINDS for b in (0, 1, -3.5) for p in range(KINDS[k][0])], check_explain, 'explanations of tiny and of real differences')
    ctx.sweep('explain two', [(k, i, j) for k in KINDS for i in range(KINDS[k][0]) for j in range(KINDS[k][0]) if i < j], check_explain_two, 'differences in two coordinates')
    ctx.sweep('explain any', [(a, b) for a in ALL for b in ALL if not (a != b and 'image' in a and 'image' in b)], check_explain_any, 'any two values')
    names = [n for n, _ in images()]
    ctx.sweep('images', [(a, b) for a in names for b in names], check_images, 'images against recorded images')
    ctx.sweep('plots', [(a, b, s, t) for a in plots() for b in plots() for s in ctx.pick((10,), (10, 3, 32)) for t in [(None, 6.0), (0.5, 2.0)] if ctx.deep or t[0] is None or b in (a, 'box')],
              check_plots, 'plots against recorded plots')
    ctx.sweep('canvas', [(s,) for s in (None, 1, 7, 100)], check_simple_dc, 'the drawing context for tests')
