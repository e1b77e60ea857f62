"""C15: dumped models reload to equal models"""
import itertools
import re as regex
from mc.engine import same, equal, require, Disabled, Violation
from mc.oracle import *
from mc.models import *
from mc.edits import edited
from mc.checks.c12_readonly import first_difference
from x7.geom.drawing import DrawingContext
import x7.geom.geom
import x7.geom.colors
import x7.geom.transform
import x7.geom.bezier

STYLES = dict(PENS)


def load(text):
    env = {}
    exec(compile(text, 'dump', 'exec'), env)
    return env['model']


def pixels(e):
    from PIL import Image
    dc = DrawingContext(Image.new('RGBA', (24, 24), 'white'), Transform((1, 0.25, 10, 0, -1, 12)))
    dc.points_per_curve = 6
    e.draw(dc)
    return dc.image().tobytes()


def every(e):
    yield e
    for x in (e.elems.values() if isinstance(e, Group) else [e.outside] + e.inside if isinstance(e, ElemWithHoles) else ()):
        yield from every(x)


def check_model(e, use_vars=True, draw=True):
    before = snapshot(e)
    dc = DumpContext(use_vars=use_vars)
    ret = e.dump(dc)
    require(ret is dc, 'dump returns %r', ret)
    text = dc.output()
    equal('second output of the dump context', dc.output(), text)
    equal('lines only', dc.output(just_lines=True), dc.output(just_lines=True))
    require(text.replace('model = ', '').endswith(dc.output(just_lines=True)), 'lines only give another text')
    equal('model after dump', snapshot(e), before)
    new = load(text)
    if snapshot(new) != before:
        raise Violation('the reloaded model differs: %s' % first_difference(snapshot(new), before))
    require(new == e and e == new, 'the reloaded model is not equal')
    again = new.dump(DumpContext(use_vars=use_vars)).output()
    equal('dump of the reloaded model', again, text)
    equal('dump of the same model again', e.dump(DumpContext(use_vars=use_vars)).output(), text)
    if draw:
        require(pixels(new) == pixels(e), 'the reloaded model draws differently')
    require(not {id(x) for x in every(new)} & {id(x) for x in every(e)}, 'shared elements')
    if use_vars:
        check_vars(e, text)
    return text


def check_vars(e, text):
    """Every shared value is written once, and different values have different names"""
    values = {}
    for name, value in regex.findall(r'^((?:pen|xform)_\d+) = (.*)$', text, regex.M):
        require(name not in values, '%s is assigned twice', name)
        values[name] = value
    require(len(set(values.values())) == len(values), 'the same value is written twice: %r', values)
    env = {}
    exec('\n'.join(DumpContext.DEFAULT_IMPORTS), env)
    parts = list(every(e))
    pens = []
    for p in parts:
        if not any(type(p.penbrush) is type(q) and repr(p.penbrush) == repr(q) for q in pens):
            pens.append(p.penbrush)
    xforms = []
    for p in parts:
        if p.xform != Transform() and p.xform not in xforms:
            xforms.append(p.xform)
    require(sum(n.startswith('pen') for n in values) == len(pens), 'variables %r for %d different styles', values, len(pens))
    require(sum(n.startswith('xform') for n in values) == len(xforms), 'variables %r for %d different transforms', values, len(xforms))


def model(case, obs):
    d, use_vars = case
    check_model(build(d), use_vars)
    obs.step(4)
    obs.state(d)


def foreign(case, obs):
    """Elements of other modules, which tell the imports they need"""
    import sys
    import types
    kinds, nest, use_vars, same_import = case
    mod = types.ModuleType('foreign_elements')
    for k in sorted(set(kinds)):
        base = {'r': ElemRectangle, 'c': ElemCurve, 'e': ElemEllipse, 'o': ElemRectangleRounded}[k]
        name = 'Foreign' + base.__name__
        imports = ['from foreign_elements import *'] if same_import else ['from foreign_elements import ' + name, 'import math']
        setattr(mod, name, type(name, (base,), dict(ELEM_IMPORTS=imports, __module__='foreign_elements')))
    sys.modules['foreign_elements'] = mod
    try:
        elems = []
        for i, k in enumerate(kinds):
            e = build(single({'r': 'rect', 'c': 'curve', 'e': 'ellipse', 'o': 'rrect'}[k], 'turn', name='n%d' % i))
            e.__class__ = getattr(mod, 'Foreign' + type(e).__name__)
            elems.append(e)
        top = elems[0]
        if nest:
            top = Group('g', STYLES['thin'](), closed=True)
            for e in elems:
                where = top
                if nest == 'deep' and not e.name.endswith('0'):
                    where = Group('s' + e.name, STYLES['thin'](), closed=True)
                    top.add(where.name, where)
                where.add(e.name, e)
        before = snapshot(top)
        text = top.dump(DumpContext(use_vars=use_vars)).output()
        new = load(text)
        require(snapshot(new) == before and new == top and type(new) is type(top), 'the reloaded model differs')
        equal('classes', [type(x).__name__ for x in every(new)], [type(x).__name__ for x in every(top)])
        equal('dump of the reloaded model', new.dump(DumpContext(use_vars=use_vars)).output(), text)
        # Nothing remains for other dumps
        plain = build(single('rect')).dump(DumpContext()).output()
        require('foreign' not in plain.lower(), 'a dump needs imports of another one: %s', plain)
    finally:
        del sys.modules['foreign_elements']
    obs.step(3)
    obs.state(case)


def shared(case, obs):
    """Every way to share styles and transforms between elements"""
    pens, xfs, kind = case
    objs = {}
    g = Group('g', STYLES['thin'](), closed=True)
    sub_ = Group('s', STYLES['thin'](), closed=True)
    g.add('s', sub_)
    for i, (p, x) in enumerate(zip(pens, xfs)):
        pen = objs.setdefault(('p', p), EXTRA_PENS[p]()) if kind == 'same objects' else EXTRA_PENS[p]()
        xf = objs.setdefault(('x', x), Transform(EXTRA_XFORMS[x])) if kind == 'same objects' else Transform(EXTRA_XFORMS[x])
        e = build(single(('rect', 'curve', 'ellipse', 'rrect')[i % 4]))
        e.penbrush, e.xform = pen, xf
        (sub_ if i % 2 else g).add('e%d' % i, e)
    check_model(g, draw=False)
    obs.step(4)
    obs.state(case)


EXTRA_PENS = {
    'red': lambda: PenBrush('red'), 'red 1': lambda: PenBrush(('red', 1)), 'red 1.5': lambda: PenBrush(('red', 1.5)),
    'red -1': lambda: PenBrush(('red', -1)), 'red on red': lambda: PenBrush('red', 'red'), 'no pen': lambda: PenBrush(None, 'red'),
    'nothing': lambda: PenBrush(None), 'rgb': lambda: PenBrush((255, 0, 0)), 'rgba': lambda: PenBrush(((255, 0, 0, 255), 1)),
    'clear': lambda: PenBrush('red', TRANSPARENT), 'Red': lambda: PenBrush('Red'), 'quote': lambda: PenBrush("it's", 'a "b"'),
}
EXTRA_XFORMS = [None, (1, 0, 0, 0, 1, 1e-12), (1, 0, 1, 0, 1, 0), (1, 0, 0, 0, 1, 1), (0.1 + 0.2, 0, 0, 0, 0.3, 0), (0.3, 0, 0, 0, 0.3, 0),
                (1e-20, 0, 1e20, 0, -1, 1/3), (-1, 0, 0, 0, -1, 0), (0, 1, 0, -1, 0, 0)]

NAMES = ['', 'a b', "it's", 'say "x"', 'back\\slash', 'new\nline', 'ünï', '%s %d', '{x}', 'a#1', "'''", 'pen_1', 'model', ',', ')', '],']


def names(case, obs):
    name, kind = case
    d = D('group', 'top', 'both', closed=True, points={name + 'p': (1, 2)}, elems=[])
    inner = {'curve': single('curve', 'turn'), 'rect': single('rect'), 'rrect': single('rrect', 'skew'), 'ellipse': single('ellipse'),
             'holes': holes('rect', ['ellipse']), 'group': group('s', [single('rect')], 'move')}[kind]
    check_model(build(re(inner, name=name)))
    if name:
        check_model(build(re(d, elems=[re(inner, name=name), single('open', name='o')])))
        check_model(build(re(d, name=name, elems=[inner])))
    obs.step(3)
    obs.state(case)


class World(object):
    """A model that is built step by step, and dumped after every step"""

    def __init__(self):
        self.g = Group('top', PENS['thin']())
        self.cur = [self.g]
        self.n = 0

    def apply(self, op):
        what, *a = op
        g = self.cur[-1]
        self.n += 1
        name = '%s%d' % (what, self.n)
        if what == 'elem':
            g.add(name, build(single(a[0], a[1])))
        elif what == 'holes':
            g.add(name, build(holes('rect', a[0], a[1])))
        elif what == 'open':
            s = Group(name, PENS['line']())
            g.add(name, s)
            self.cur.append(s)
        elif what == 'close':
            if len(self.cur) < 2:
                raise Disabled()
            self.cur.pop()
        elif what == 'hide':
            g.hidden = not g.hidden
        elif what == 'xform':
            g.xform.translate(3, 1.5).rotate(30)
        elif what == 'share':
            # the transform and style of another element
            es = [e for e in every(self.g) if e is not g]
            if not es:
                raise Disabled()
            e = build(single('circle'))
            e.xform, e.penbrush = es[-1].xform, es[-1].penbrush
            e.penbrush = e.penbrush if not e.penbrush.filled or e.closed else PENS['line']()
            g.add(name, e)
        elif what == 'point':
            g.add_pt(name, Point(self.n, 0.1))
        elif what == 'rel point':
            g.add_pt(name, PointRelative(1, 2.5, Point(self.n, 3, 'base')))
        elif what == 'dump':
            self.g.dump()
        elif what == 'copy':
            self.g = self.g.copy()
            self.cur = [self.g]
        elif what == 'transform':
            self.g = self.g.transform(Transform((1, 0.5, 2, 0, -2, -1)))
            self.cur = [self.g]
        elif what == 'pen':
            g.penbrush = PENS['scaled']()
            g.closed = True

    def check(self):
        self.text = check_model(self.g, draw=False)
        b = GroupBuilder('b', PensByShape(), group=self.g)
        equal('dump by a builder', b.dump().output(), self.text)

    def canon(self):
        return self.text


def values():
    nums = [0, 1, -2, 0.5, 1/3, 1e-9, -1e17, 123456.789]
    pts = [Point(x, y) for x in nums for y in nums[:5]] + [Point(1, 2, n) for n in NAMES[1:]]
    pts += [PointRelative(x, y, b) for x in nums for y in nums[3:5] for b in (Point(1, 2), Point(0.1, -3, 'n'))]
    pts += [PointRelative(1, 2, PointRelative(3, 4.5, Point(5, 6, 'z'), 'y'), 'x'), PointCalc(PointRelative(3, 4.5, Point(5, 6)), -0.5),
            PointCalc(PointRelative(3, 4.5, Point(5, 6, 'z'), 'y'), 2, 'x')]
    vecs = [Vector(x, y) for x in nums for y in nums] + [VectorRelative(p, q) for p in pts[::9] for q in pts[::13]]
    boxes = [BBox(None), BBox(0, 0, 0, 0)] + [BBox(x, y, x + 1.5, y - 1/3) for x in nums for y in nums]
    lines = [Line(p, v) for p in pts[::7] for v in vecs[::11]] + [Line(p, q) for p in pts[:5] for q in pts[3:6]]
    xfs = [Transform()] + [Transform(x) for x in EXTRA_XFORMS + list(XFORMS.values()) if x]
    xfs += [Transform().rotate(30).translate(1/3, 2), Transform().scale(3, 1/3).rotate_about(77, Point(1, 0.1))]
    cps = [ControlPoint(c, dl, dr, k) for c in pts[::6] for dl in vecs[::9] for dr in vecs[1::17] for k in ('smooth', "it's")]
    pens = [p() for p in list(EXTRA_PENS.values()) + list(PENS.values())]
    out = pts + vecs + boxes + lines + xfs + cps + pens
    out += [p.pen for p in pens if p.pen] + [p.brush for p in pens if p.brush] + [Pen(p.brush.color, w) for p in [q.pen for q in pens] if p for w in (0, 1, 2.5, -3, 1/3)]
    # results of calculations
    out += [p + v for p in pts[:40:7] for v in vecs[::15]] + [x.transform_pt(p) for x in xfs for p in pts[:40:9]] + [cp.transform(x) for x in xfs for cp in cps[::40]]
    out += [b.expand(1/3) for b in boxes[1:]] if False else []
    return out


def value(case, obs):
    v, = case
    env = {}
    for m in (x7.geom.geom, x7.geom.colors, x7.geom.transform, x7.geom.bezier):
        exec('from %s import *' % m.__name__, env)
    text = repr(v)
    new = eval(text, env)
    require(type(new) is type(v), '%s evaluates to %r', text, new)
    require(new == v and v == new, '%s evaluates to another value, %r', text, new)
    equal('text of the value evaluated', repr(new), text)
    if hasattr(v, 'xy'):
        equal('coordinates', tuple(map(float, new.xy())), tuple(map(float, v.xy())))
        equal('name', getattr(new, 'name', None), getattr(v, 'name', None))
    obs.state(text)


def distinct(case, obs):
    """Texts tell different values apart"""
    vals, = case
    for a, b in itertools.combinations(vals, 2):
        obs.step()
        if type(a) is type(b) and a != b:
            require(repr(a) != repr(b), 'different values have the same text %r', a)


def pens_by_shape(case, obs):
    p = case
    env = {}
    exec('from x7.geom.colors import *', env)
    new = eval(repr(p), env)
    for k in PensByShape.keys():
        equal(k, new[k], p[k])
    equal('text', repr(new), repr(p))
    obs.state(repr(p))


def many_styles(case, obs):
    """Any number of different styles and transforms"""
    pens, xforms, use_vars = case
    g = Group('g', PenBrush('black'))
    for n in range(max(pens, xforms)):
        e = ElemRectangle('r', PenBrush(('red', n % pens + 2)), Point(n, 0), Point(1, 2), xform=Transform().translate(n % xforms, 1) if xforms else None)
        g.add('r%d' % n, e)
    check_model(g, use_vars, draw=False)
    obs.state(case)


def run(ctx):
    ctx.sweep('many styles', [(p, x, v) for p, x in [(n, n % 7) for n in range(1, 41)] + [(1, n) for n in range(1, 41)] + [(60, 33), (99, 100), (128, 128), (257, 20), (20, 257)]
                              for v in (True, False)], many_styles, 'models of very many different styles and transforms')
    ctx.assume('named points of a group are stored under their own names')
    cat = catalogue(ctx.deep)
    ctx.sweep('models', [(d, v) for d in cat for v in (True, False)], model, 'every model of the catalogue, with and without shared variables')
    ctx.sweep('foreign', [(k, n, v, s) for n in (None, 'flat', 'deep') for r in ((1, 2, 3) if n else (1,)) for k in itertools.product('rceo', repeat=r)
                          for v in (True, False) for s in (True, False)], foreign, 'elements of classes defined elsewhere')
    pens = list(EXTRA_PENS)
    cases = [(p, (0, 1, 2), k) for p in itertools.product(pens, repeat=3) for k in ('same objects', 'copies')]
    cases += [(('red',) * 4, x, k) for x in itertools.product(range(len(EXTRA_XFORMS)), repeat=4) for k in ('same objects', 'copies')][::ctx.pick(3, 1)]
    cases += [((pens * 3)[:n], tuple(x % len(EXTRA_XFORMS) for x in range(n)), k) for n in (12, 24, 30) for k in ('same objects', 'copies')]
    ctx.sweep('shared', cases, shared, 'every way to share styles and transforms')
    ctx.sweep('names', [(n, k) for n in NAMES for k in ('curve', 'rect', 'rrect', 'ellipse', 'holes', 'group')], names, 'names with special characters')
    vals = values()
    ctx.sweep('values', [(v,) for v in vals], value, 'text of points, vectors, boxes, lines, transforms, control points, pens')
    kinds = {}
    for v in vals:
        kinds.setdefault(type(v), []).append(v)
    ctx.sweep('distinct', [(v[:200],) for v in kinds.values()], distinct, 'texts of different values, pairwise')
    sets = [PensByShape(), PensByShape.make(False, 'red', 'blue', width=2), PensByShape.make(True), PensByShape(edge=PenBrush(('red', -2))),
            PensByShape(filled=PenBrush(None, (1, 2, 3)), clear=PenBrush('a', 'b'), edge_filled=PenBrush(('x', 0.1)), edge_clear=PenBrush(None))]
    ctx.sweep('style sets', sets, pens_by_shape, 'text of style sets')
    edited(ctx, lambda what, e, d: check_model(e))
    ops = [('elem', 'curve', 'turn'), ('elem', 'rrect', 'none'), ('elem', 'open', 'skew'), ('holes', ['ellipse', 'curve'], 'turn'), ('holes', [], 'none'), ('open',),
           ('close',), ('hide',), ('xform',), ('share',), ('point',), ('rel point',), ('dump',), ('copy',), ('transform',), ('pen',)]
    ctx.histories('building', World, ops, ctx.pick(4, 5), 'all sequences of construction steps')
