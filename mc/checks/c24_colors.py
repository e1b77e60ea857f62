"""C24: pens and brushes are immutable values"""
import itertools
from mc.engine import same, equal, require, raises, fail, near, Disabled, Violation
from mc.oracle import *
from x7.geom.colors import *
from x7.geom.transform import Transform

# What is given, and what it means: None or (colour, width)
PENS = {
    'none': (lambda: None, None),
    'name': (lambda: 'red', ('red', 0)),
    'rgb': (lambda: (1, 2, 3), ((1, 2, 3), 0)),
    'rgba': (lambda: (1, 2, 3, 4), ((1, 2, 3, 4), 0)),
    'number': (lambda: 7, (7, 0)),
    'digit': (lambda: '7', ('7', 0)),
    'upper': (lambda: 'RED', ('RED', 0)),
    'text of rgb': (lambda: '(1, 2, 3)', ('(1, 2, 3)', 0)),
    'list': (lambda: Pen([1, 2, 3]), ([1, 2, 3], 0)),
    'zero': (lambda: 0, (0, 0)),
    'pair': (lambda: ('red', 2), ('red', 2)),
    'pair 0': (lambda: ('red', 0.0), ('red', 0)),
    'pair scaled': (lambda: ('blue', -1.5), ('blue', -1.5)),
    'pair close': (lambda: ('red', 2 + 2 ** -40), ('red', 2 + 2 ** -40)),
    'pair tiny': (lambda: ('red', 1e-12), ('red', 1e-12)),
    'pair tiny scaled': (lambda: ('red', -1e-12), ('red', -1e-12)),
    'pair huge': (lambda: ('red', 1e12), ('red', 1e12)),
    'pair rgb': (lambda: ((1, 2, 3), 2.5), ((1, 2, 3), 2.5)),
    'pair brush': (lambda: (Brush('blue'), 3), ('blue', 3)),
    'pen': (lambda: Pen('red', 2), ('red', 2)),
    'pen plain': (lambda: Pen('blue'), ('blue', 0)),
    'pen brush': (lambda: Pen(Brush((1, 2, 3)), -2), ((1, 2, 3), -2)),
    'pen keyword': (lambda: Pen(brush='green', width=1), ('green', 1)),
    'pen clear': (lambda: Pen(TRANSPARENT, 4), ((0, 0, 0, 0), 4)),
}
BRUSHES = {
    'none': (lambda: None, None),
    'name': (lambda: 'blue', 'blue'),
    'red': (lambda: 'red', 'red'),
    'rgb': (lambda: (1, 2, 3), (1, 2, 3)),
    'pair': (lambda: (5, 6), (5, 6)),
    'rgb close': (lambda: (1, 2, 3 + 2 ** -40), (1, 2, 3 + 2 ** -40)),
    'clear': (lambda: TRANSPARENT, (0, 0, 0, 0)),
    'zero': (lambda: 0, 0),
    'text of zero': (lambda: '0', '0'),
    'empty': (lambda: '', ''),
    'blank': (lambda: ' blue', ' blue'),
    'mixed case': (lambda: 'Blue', 'Blue'),
    'text of pair': (lambda: '(5, 6)', '(5, 6)'),
    'text of none': (lambda: 'None', 'None'),
    'brush': (lambda: Brush('blue'), 'blue'),
    'brush clear': (lambda: Brush((0, 0, 0, 0)), (0, 0, 0, 0)),
}
MATRICES = {
    'identity': (IDENT, 1), 'double': ((2, 0, 5, 0, 2, 7), 2), 'flip': ((3, 0, -1, 0, -3, 2), 3), 'turn': ((0.8, -0.6, 2, 0.6, 0.8, 1), 1),
    'quarter': ((0, -1.5, 0, 1.5, 0, 7), 1.5), 'turned': ((1.6, 1.2, 0, -1.2, 1.6, 40), 2), 'small': ((0.01, 0, 3, 0, 0.01, 0), 0.01),
}


def meaning(pb):
    """(pen, fill) of a PenBrush as can be observed"""
    pen = (pb.stroke_color, pb.pen.width) if pb.pen is not None else None
    return pen, pb.fill_color


def check_value(what, pb, want):
    """Everything that can be seen of a PenBrush meaning want"""
    pen, fill = want
    require(isinstance(pb, PenBrush), '%s is a %s', what, type(pb).__name__)
    equal('%s: stroke_color' % what, pb.stroke_color, pen[0] if pen else None)
    equal('%s: stroked' % what, pb.stroked, pen is not None)
    equal('%s: fill_color' % what, pb.fill_color, fill)
    equal('%s: filled' % what, pb.filled, fill is not None)
    for name, (m, scale) in MATRICES.items():
        w = pb.stroke_width(Transform(m))
        if pen is None:
            require(w is None, '%s: stroke_width %r without a pen', what, w)
        elif pen[1] > 0:
            equal('%s: stroke_width, %s' % (what, name), w, pen[1])
        else:
            same('%s: stroke_width, %s' % (what, name), w, -pen[1] * scale)
    if pen:
        require(isinstance(pb.pen, Pen) and isinstance(pb.pen.brush, Brush), '%s: pen %r', what, pb.pen)
        equal('%s: pen width' % what, pb.pen.width, pen[1])
    else:
        equal('%s: pen' % what, pb.pen, None)
    if fill is not None:
        require(isinstance(pb.brush, Brush), '%s: brush %r', what, pb.brush)
    else:
        equal('%s: brush' % what, pb.brush, None)
    again = eval(repr(pb))
    require(again == pb and meaning(again) == meaning(pb), '%s: text %r describes another value', what, repr(pb))
    require(isinstance(str(pb), str) and isinstance(str(pb.pen), str) and isinstance(str(pb.brush), str), '%s: no text', what)


def check_construct(case, obs):
    p, b = case
    pen, brush = PENS[p][0](), BRUSHES[b][0]()
    pb = PenBrush(pen, brush)
    want = PENS[p][1], BRUSHES[b][1]
    check_value('PenBrush(%r, %r)' % (pen, brush), pb, want)
    check_value('by keyword', PenBrush(brush=BRUSHES[b][0](), pen=PENS[p][0]()), want)
    if b == 'none':
        check_value('PenBrush(%r)' % (pen,), PenBrush(pen), want)
    # Made from the parts of another
    check_value('from parts', PenBrush(pb.pen, pb.brush), want)
    return p, b


def all_values():
    return [(p, b) for p in PENS for b in BRUSHES]


def check_equality(case, obs):
    p, b = case
    mine = PenBrush(PENS[p][0](), BRUSHES[b][0]())
    want = PENS[p][1], BRUSHES[b][1]
    for p2, b2 in all_values():
        other = PenBrush(PENS[p2][0](), BRUSHES[b2][0]())
        eq = want == (PENS[p2][1], BRUSHES[b2][1])
        require((mine == other) is eq and (mine != other) is not eq, '%r == %r is %r', mine, other, mine == other)
        if mine.pen and other.pen:
            eq = PENS[p][1] == PENS[p2][1]
            require((mine.pen == other.pen) is eq and (mine.pen != other.pen) is not eq, '%r == %r is %r', mine.pen, other.pen, mine.pen == other.pen)
        if mine.brush and other.brush:
            eq = BRUSHES[b][1] == BRUSHES[b2][1]
            require((mine.brush == other.brush) is eq and (mine.brush != other.brush) is not eq, '%r == %r', mine.brush, other.brush)
        obs.step()
    for stranger in (None, 'red', 0, (want,), repr(mine)):
        require(not mine == stranger and mine != stranger, '%r equals %r', mine, stranger)
        require(mine.pen is None or not mine.pen == stranger, '%r equals %r', mine.pen, stranger)
        require(mine.brush is None or not mine.brush == stranger, '%r equals %r', mine.brush, stranger)
    require(not mine == mine.pen and not mine == mine.brush and (mine.pen is None or mine.brush is None or not mine.pen == mine.brush), 'kinds are mixed up')
    if mine.pen:
        require(not mine.pen == mine.pen.brush, 'a pen equals its brush')
    return want


# -- replace

REPLACE = [('pen', p) for p in ('name', 'zero', 'pair scaled', 'pen', 'pen clear', 'rgb')] + \
          [('width', w) for w in (0, 0.0, 3, -2.5)] + [('brush', b) for b in ('name', 'clear', 'zero', 'brush', 'rgb')] + \
          [('none', None), ('pen+brush', ('pair rgb', 'red')), ('width+brush', (4, 'clear')), ('all', ('pen', 3, 'red')), ('both', ('name', 0))]


def replace(pb, want, op):
    """(new, its meaning) or None if refused"""
    kind, arg = op
    pen, fill = want
    if kind == 'pen':
        return pb.replace(pen=PENS[arg][0]()), (PENS[arg][1], fill)
    if kind == 'width':
        return pb.replace(width=arg), ((pen[0], arg) if pen else None, fill)
    if kind == 'brush':
        return pb.replace(brush=BRUSHES[arg][0]()), (pen, BRUSHES[arg][1])
    if kind == 'none':
        return pb.replace(), want
    if kind == 'pen+brush':
        return pb.replace(PENS[arg[0]][0](), brush=BRUSHES[arg[1]][0]()), (PENS[arg[0]][1], BRUSHES[arg[1]][1])
    if kind == 'width+brush':
        return pb.replace(width=arg[0], brush=BRUSHES[arg[1]][0]()), ((pen[0], arg[0]) if pen else None, BRUSHES[arg[1]][1])
    if kind == 'both':
        raises(ValueError, pb.replace, PENS[arg[0]][0](), arg[1])
    else:
        raises(ValueError, pb.replace, pen=PENS[arg[0]][0](), width=arg[1], brush=BRUSHES[arg[2]][0]())
    return None


class ReplaceWorld(object):
    """A chain of replacements: nothing that came before changes"""
    def __init__(self, pen, brush):
        self.given = PENS[pen][0](), BRUSHES[brush][0]()
        self.text = repr(self.given)
        self.chain = [(PenBrush(*self.given), (PENS[pen][1], BRUSHES[brush][1]))]

    def apply(self, op):
        pb, want = self.chain[-1]
        r = replace(pb, want, op)
        if r:
            require(r[0] is not pb, 'replace returns the same object')
            self.chain.append(r)

    def check(self):
        for i, (pb, want) in enumerate(self.chain):
            require(meaning(pb) == want, 'value %d of %d is %r, expected %r', i, len(self.chain), pb, want)
        check_value('last', *self.chain[-1])
        for (a, wa), (b, wb) in itertools.combinations(self.chain, 2):
            require((a == b) is (wa == wb), '%r == %r is %r', a, b, a == b)
        equal('given', repr(self.given), self.text)

    def canon(self):
        return repr([w for _, w in self.chain])


def check_pen_replace(case, obs):
    pen, brush, width = case
    make, want = PENS[pen]
    p = PenBrush(make()).pen
    kw = {}
    if brush is not None:
        kw['brush'] = BRUSHES[brush][0]()
    if width is not None:
        kw['width'] = width
    new = p.replace(**kw)
    w = BRUSHES[brush][1] if brush is not None else want[0], width if width is not None else want[1]
    require(isinstance(new, Pen) and new is not p, 'replace gives %r', new)
    equal('replaced pen', (new.brush.color, new.width), w)
    equal('original pen', (p.brush.color, p.width), want)
    equal('as positional', p.replace(*([kw.get('brush')] + ([width] if width is not None else []))), new)
    return w


# -- style sets

KINDS = ('edge', 'filled', 'clear', 'edge_filled', 'edge_clear')


def check_set(what, pens, want):
    equal('%s: kinds' % what, tuple(pens.keys()), KINDS)
    for k in KINDS:
        require(meaning(pens[k]) == want[k], '%s: %s is %r, expected %r', what, k, pens[k], want[k])
        require(getattr(pens, k) == pens[k], '%s: attribute %s', what, k)
    for bad in ('', 'Edge', 'edge ', 'edges', 'keys', 'make', '__class__', None, 0, ('edge',), 'replace_width'):
        raises(ValueError, pens.__getitem__, bad)
    again = eval(repr(pens))
    require(all(again[k] == pens[k] for k in KINDS) and isinstance(str(pens), str), '%s: text %r', what, repr(pens))


def check_make(case, obs):
    draft, color, fill, transparent, width = case
    kw = {k: v for k, v in zip(('draft', 'color', 'fill', 'transparent', 'width'), case) if v is not None}
    pens = PensByShape.make(**kw)
    c = 'white' if color is None else color
    f = (0, 0, 0, 0) if fill is None else fill
    t = (0, 0, 0, 0) if transparent is None else transparent
    w = 0 if width is None else width
    if draft is None or draft:
        want = {k: ((c, 0), None) for k in KINDS}
    else:
        want = dict(edge=((c, w), None), filled=(None, c), clear=(None, t), edge_filled=((c, w), f), edge_clear=((c, w), t))
    check_set('make', pens, want)
    other = PensByShape.make(not draft, 'pink')
    thin = pens.replace_width(5)
    for k in KINDS:
        require(thin[k] is not pens[k], 'replace_width shares %s', k)
    check_set('replaced', thin, {k: ((p[0], 5) if p else None, b) for k, (p, b) in want.items()})
    check_set('replaced by 0', thin.replace_width(0), {k: ((p[0], 0) if p else None, b) for k, (p, b) in want.items()})
    check_set('original', pens, want)
    require(other['edge'].stroke_color == 'pink', 'other set')
    return case


def check_by_shape(case, obs):
    """Sets with some styles given, others by default"""
    given = {k: PenBrush(PENS[p][0](), BRUSHES[b][0]()) for k, p, b in case}
    want = {k: (('black', 1), None) for k in KINDS}
    for k, p, b in case:
        want[k] = PENS[p][1], BRUSHES[b][1]
    pens = PensByShape(**given)
    check_set('given', pens, want)
    check_set('by position', PensByShape(*[given.get(k) for k in KINDS]), want)
    check_set('replaced', pens.replace_width(-7), {k: ((p[0], -7) if p else None, b) for k, (p, b) in want.items()})
    check_set('original', pens, want)
    for k, pb in given.items():
        require(pens[k] is pb or pens[k] == pb, 'style %s was given as %r', k, pb)
    return repr(sorted(want.items()))


def check_colors(case, obs):
    o, f = case
    kw = {}
    if o != 'default':
        kw['outline'] = o
    if f != 'default':
        kw['fill'] = f
    c = Colors(**kw)
    outline = 'black' if o == 'default' else None if o == NOCOLOR else o
    fill = None if f in ('default', NOCOLOR) else f
    equal('outline', c.outline, outline)
    equal('fill', c.fill, fill)
    equal('filled', c.filled, fill is not None)
    require(isinstance(repr(c), str), 'text')
    return o, f


def check_make_colors(case, obs):
    draft, color, fill, transparent = case
    kw = {k: v for k, v in zip(('draft', 'color', 'fill', 'transparent'), case) if v is not None}
    cs = ColorsByShape.make(**kw)
    c = 'white' if color is None else color
    f = (0, 0, 0, 0) if fill is None else fill
    t = (0, 0, 0, 0) if transparent is None else transparent
    if draft is None or draft:
        want = {k: (c, None) for k in KINDS}
    else:
        want = dict(edge=(c, None), filled=(None, c), clear=(None, t), edge_filled=(c, f), edge_clear=(c, t))
    equal('kinds', tuple(cs.keys()), KINDS)
    for k in KINDS:
        equal(k, (cs[k].outline, cs[k].fill), want[k])
        require(getattr(cs, k) is cs[k], 'attribute %s', k)
    for bad in ('', 'Edge', 'edges', 'keys', 'make', None, 0):
        raises(ValueError, cs.__getitem__, bad)
    plain = ColorsByShape()
    for k in KINDS:
        equal('default %s' % k, (plain[k].outline, plain[k].fill), ('black', None))
        one = ColorsByShape(**{k: Colors('pink', 'blue')})
        equal('given %s' % k, [(one[j].outline, one[j].fill) for j in KINDS], [('pink', 'blue') if j == k else ('black', None) for j in KINDS])
    require(isinstance(str(cs), str), 'text')
    return case


def run(ctx):
    ctx.assume('Stroke widths that scale are checked for transforms that scale equally in both directions',
               'Colours are equal as specified (the name of a colour and its numbers are different specifications)')
    ctx.sweep('constructors', all_values(), check_construct, 'every kind of pen and brush argument: strokes, fills, widths, text')
    ctx.sweep('equality', all_values(), check_equality, 'every pair of values')
    starts = [('pair', 'none'), ('none', 'name'), ('pen brush', 'clear'), ('none', 'none'), ('zero', 'zero')]
    for p, b in starts:
        ctx.histories('replace %s, %s' % (p, b), lambda: ReplaceWorld(p, b), REPLACE, ctx.pick(3, 4), 'all chains of replacements')
    ctx.sweep('pens', [(p, b, w) for p in PENS if p != 'none' for b in [None] + [k for k in BRUSHES if k != 'none'] for w in (None, 0, 2, -3.5)], check_pen_replace,
              'replacing parts of pens')
    cols = (None, 'black', (1, 2, 3, 4))
    ctx.sweep('standard sets', list(itertools.product((None, True, False), cols, cols, cols, (None, 0, 3, -2))), check_make, 'draft and production style sets')
    styles = [('pair', 'none'), ('none', 'clear'), ('pen brush', 'name')]
    given = [()] + [tuple((k, *s) for k, s in zip(ks, ss)) for n in ctx.pick((1, 2), (1, 2, 3, 4)) for ks in itertools.combinations(KINDS, n)
                    for ss in itertools.product(styles, repeat=n)]
    given.append(tuple((k, *styles[i % 3]) for i, k in enumerate(KINDS)))
    ctx.sweep('sets', given, check_by_shape, 'sets with some styles given')
    vals = ('default', None, NOCOLOR, 'red', (1, 2, 3), TRANSPARENT, 0)
    ctx.sweep('colours', list(itertools.product(vals, vals)), check_colors, 'outline and fill colours')
    ctx.sweep('colour sets', list(itertools.product((None, True, False), cols, cols, cols)), check_make_colors, 'draft and production colour sets')
