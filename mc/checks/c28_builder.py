"""C28: the group builder builds exactly the group its calls describe"""
import itertools
from mc.engine import same, equal, require, raises, Disabled, Violation
from mc.oracle import *
from mc.models import *
from x7.geom.colors import PensByShape
from x7.geom.model import GroupBuilder, gen_test_model

KINDS = ('edge', 'filled', 'clear', 'edge_filled', 'edge_clear')
# Pens given to builders; what is not given is a black pen of width 1
TABLES = {
    'all': dict(edge=lambda: PenBrush(('red', 1)), filled=lambda: PenBrush(None, 'blue'), clear=lambda: PenBrush(None, TRANSPARENT),
                edge_filled=lambda: PenBrush(('green', 2), 'yellow'), edge_clear=lambda: PenBrush('purple', TRANSPARENT)),
    'some': dict(filled=lambda: PenBrush(None, 'white'), edge_clear=lambda: PenBrush(('orange', -2), 'pink')),
    'none': {},
    'edges': dict(edge=lambda: PenBrush(None, 'red'), filled=lambda: PenBrush('red')),
}
DEFAULT = PenBrush(Pen('black', 1), None)
DIRECT = {'pen': lambda: PenBrush(('cyan', 3)), 'fill': lambda: PenBrush(None, (1, 2, 3)), 'both': lambda: PenBrush('red', 'cyan')}


def pens_table(name):
    return PensByShape(**{k: v() for k, v in TABLES[name].items()})


def pen_of(table, default, kind):
    """The pen and brush of a shape"""
    if kind in DIRECT:
        return DIRECT[kind]()
    made = TABLES[table].get(kind or default)
    return made() if made else DEFAULT


class Node(object):
    """What a builder is expected to have built"""
    def __init__(self, builder, name, table, default):
        self.builder = builder
        self.name = name
        self.table = table
        self.default = default
        self.hidden = False
        self.members = []       # [name, function returning the expected snapshot, element, Node or None]
        self.points = []        # [name, point, (x, y)]

    def names(self):
        return [m[0] for m in self.members]

    def tree(self):
        yield self
        for m in self.members:
            if m[3]:
                yield from m[3].tree()

    def listing(self, root):
        for name, _, elem, node in self.members:
            if node:
                yield from node.listing(root + '.' + name)
            elif isinstance(elem, ElemWithHoles):
                yield from [(root + '.' + name + '.outside.' + elem.outside.name, elem.outside)]
                yield from [(root + '.' + name + '.inside.' + e.name, e) for e in elem.inside]
            else:
                yield root + '.' + name, elem

    def tags(self, root=''):
        for name, _, elem, node in self.members:
            yield root + name, elem
            if node:
                yield from node.tags(root + name + '.')

    def leaf_count(self):
        """Shapes that are visible"""
        if self.hidden:
            return 0
        return sum(node.leaf_count() if node else (1 if type(e) is not ElemWithHoles else 0) for _, _, e, node in self.members)

    def expected(self):
        return tuple((n, node.expected() if node else f()) for n, f, _, node in self.members), self.hidden, tuple((n, xy) for n, _, xy in self.points)


def drawn(draw):
    from PIL import Image
    from x7.geom.drawing import DrawingContext
    dc = DrawingContext(Image.new('RGBA', (24, 24), 'white'), Transform((1, 0.25, 10, 0, -1, 12)))
    dc.points_per_curve = 6
    draw(dc)
    return dc.image().tobytes()


class World(object):
    def __init__(self, table='all', default=None, group=False):
        self.count = 0
        kw = {} if default is None else {'shape_kind': default}
        self.pens = pens_table(table)
        self.given = Group('given', PenBrush('red')) if group else None
        if group:
            kw['group'] = self.given
        b = GroupBuilder('top', self.pens, **kw)
        if group:
            require(b.the_group is self.given, 'the builder does not use the given group')
        self.root = Node(b, 'given' if group else 'top', table, default or 'edge')

    def node(self, index):
        nodes = self.nodes()
        if index >= len(nodes):
            raise Disabled()
        return nodes[index]

    def nodes(self):
        """In the order of creation (preorder is good enough, all are reached)"""
        return list(self.root.tree())

    def coords(self):
        self.count += 1
        n = self.count
        return (n, -1.5), (n + 2.25, 2 * n)

    # -- operations

    def apply(self, op):
        what, where, *args = op
        getattr(self, 'op_' + what)(self.node(where), *args)

    def added(self, node, wanted, got, expect, what, sub=None):
        """elem was returned by a call that adds it under the name wanted"""
        members = list(node.builder.the_group.elems.items())
        require(len(members) == len(node.members) + 1, '%s: %d members instead of %d', what, len(members), len(node.members) + 1)
        name, elem = members[-1]
        require(elem is got, '%s: what is returned is not what was added last', what)
        if wanted not in node.names():
            equal('%s: name' % what, name, wanted)
        else:
            require(name not in node.names() and name and '.' not in name, '%s: name %r', what, name)
        equal('%s: name of the element' % what, elem.name, name)
        node.members.append([name, lambda: expect(name), elem, sub])
        if sub:
            sub.name = name

    def shape(self, node, wanted, call, expect, what):
        before = list(node.builder.the_group.elems)
        try:
            e = call()
        except ValueError:
            require(wanted in node.names(), '%s was refused', what)
            equal('members after %s was refused' % what, list(node.builder.the_group.elems), before)
            return
        self.added(node, wanted, e, expect, what)

    def op_rect(self, node, name, kind, closed='default'):
        p1, p2 = self.coords()
        args, kw = call_args(kind, closed)
        pen = pen_of(node.table, node.default, kind)
        shut = {'default': True, None: pen.filled}.get(closed, closed)
        a, b = Point(*p1), Point(*p2)
        self.shape(node, name, lambda: node.builder.rect(name, a, b, *args, **kw),
                   lambda n: snapshot(ElemRectangle(n, pen, Point(*p1), Point(*p2), closed=shut)), 'rect')

    def op_rrect(self, node, name, kind, closed='default'):
        p1, p2 = self.coords()
        args, kw = call_args(kind, closed)
        pen = pen_of(node.table, node.default, kind)
        shut = {'default': True, None: pen.filled}.get(closed, closed)
        self.shape(node, name, lambda: node.builder.rrect(name, Point(*p1), Point(*p2), 0.75, *args, **kw),
                   lambda n: snapshot(ElemRectangleRounded(n, pen, Point(*p1), Point(*p2), 0.75, closed=shut)), 'rrect')

    def op_ellipse(self, node, name, kind, closed='default'):
        p1, p2 = self.coords()
        args, kw = call_args(kind, closed)
        pen = pen_of(node.table, node.default, kind)
        shut = {'default': True, None: pen.filled}.get(closed, closed)
        self.shape(node, name, lambda: node.builder.ellipse(name, Point(*p1), Point(*p2), *args, **kw),
                   lambda n: snapshot(ElemEllipse(n, pen, Point(*p1), Point(*p2), closed=shut)), 'ellipse')

    def op_curve(self, node, name, kind, closed='default', point=None):
        p1, p2 = self.coords()
        args, kw = call_args(kind, closed)
        pen = pen_of(node.table, node.default, kind)
        shut = {'default': pen.filled, None: pen.filled}.get(closed, closed)
        if point is None:
            first = Point(*p1)
            want_first = lambda: Point(*p1)
        else:
            found = [p for p in node.points if p[0] == point]
            if not found:
                raise Disabled()
            first = node.builder.lookup_pt(point)
            require(first is found[0][1], 'point %s is not the one that was added', point)
            want_first = lambda: Point(*found[0][2], point)
        cps = [ControlPoint(first, Vector(0, 2), Vector(0, -2)), ControlPoint(Point(*p2), Vector(-1, 0), Vector(1, 0.5), 'sharp')]
        def call():
            given = list(cps)
            try:
                return node.builder.curve(name, given, *args, **kw)
            finally:
                require(len(given) == 2 and all(a is b for a, b in zip(given, cps)), 'the list of control points was changed')
                # .. and is the caller's to use for something else
                given.reverse()
                given.append(ControlPoint(Point(77, 78), Vector(), Vector()))
        self.shape(node, name, call, lambda n: snapshot(ElemCurve(n, pen, [
            ControlPoint(want_first(), Vector(0, 2), Vector(0, -2)), ControlPoint(Point(*p2), Vector(-1, 0), Vector(1, 0.5), 'sharp')], closed=shut)), 'curve')

    def op_group(self, node, name, table=None, kind=None):
        args = ([] if table is None and kind is None else [pens_table(table) if table else None])
        kw = {'shape_kind': kind} if kind else {}
        try:
            b = node.builder.group(name, *args, **kw)
        except ValueError:
            require(name in node.names(), 'group %s was refused', name)
            return
        require(isinstance(b, GroupBuilder) and b is not node.builder, 'group returned %r', b)
        equal('name of the builder', b.name, name)
        sub = Node(b, name, table or node.table, kind or node.default)
        self.added(node, name, b.the_group, None, 'group', sub)

    def op_add(self, node, name, what):
        self.count += 1
        d = {'rect': lambda: single('rect2', 'skew'), 'holes': lambda: holes('rect', ['ellipse', 'curve'], 'turn'),
             'hidden': lambda: group('x', [single('circle', 'move')], 'stretch', hidden=True)}[what]()
        d = shifted(d, self.count, 0) if what == 'rect' else d
        e = build(d)
        want = re(d, name=name)
        before = list(node.builder.the_group.elems)
        try:
            node.builder.add(name, e)
        except ValueError:
            require(name in node.names(), 'adding was refused')
            equal('members', list(node.builder.the_group.elems), before)
            return
        self.added(node, name, e, lambda n: snapshot(build(re(want, name=n))), 'add')
        if what == 'hidden':
            node.members[-1][3] = sub = Node(None, node.members[-1][0], self.root.table, 'edge')
            sub.builder = GroupBuilder('wrapped', self.pens, group=e)
            require(sub.builder.the_group is e, 'the builder does not use the given group')
            sub.hidden = True
            inner = list(e.elems.values())[0]
            frozen = snapshot(inner)
            sub.members.append([inner.name, lambda: frozen, inner, None])
            sub.xform = XFORMS['stretch']

    def op_point(self, node, name, how):
        if any(p[0] == name for p in node.points):
            raise Disabled()
        xy, _ = self.coords()
        if how == 'same':       # At the place of another point, but a point of its own
            if not node.points:
                raise Disabled()
            xy = node.points[-1][2]
        if how != 'add':
            p = node.builder.point(name, *xy)
        else:
            mine = Point(*xy)
            p = node.builder.add_pt(name, mine)
            require(p is mine, 'add_pt returns another point')
        require(isinstance(p, Point) and p.xy() == xy and p.name == name, 'point %s: %r', name, p)
        node.points.append([name, p, xy])

    def op_move(self, node, name):
        """Named points are found again, and moving one moves the shapes that use it"""
        found = [p for p in node.points if p[0] == name]
        if not found:
            raise Disabled()
        xy, _ = self.coords()
        node.builder.lookup_pt(name).setxy(*xy)
        found[0][2] = xy

    def op_hide(self, node):
        node.builder.hide()
        node.hidden = True

    def op_rotate(self, node, index, angle, how=''):
        if not node.members:
            raise Disabled()
        name, _, elem, sub = node.members[index]
        if sub or isinstance(elem, ElemWithHoles):
            raise Disabled()
        before = snapshot(elem)
        c = elem.bbox().center
        segs = map_segs(mat_rotate_cw_about(angle, *c.xy()), map_segs_of(elem.as_curves()[0]))
        args = {'': ([], {}), 'extra': ([], {'extra': '2'}), 'show': ([True], {}), 'show extra': ([True, 'x'], {})}[how]
        extra = {'': '', 'extra': '2', 'show': '', 'show extra': 'x'}[how]
        pen, closed = elem.penbrush, elem.closed
        count = len(node.members)
        e = node.builder.rotate_about_center(elem, angle, *args[0], **args[1])
        equal('the original', snapshot(elem), before)
        require(e is not elem, 'the original is returned')
        curves = e.as_curves()
        require(len(curves) == 1, 'rotated copy: %d curves', len(curves))
        check_same_shape('rotated copy', map_segs_of(curves[0]), segs)
        require(e.penbrush == pen and e.closed is closed, 'rotated copy: %r, closed=%r', e.penbrush, e.closed)
        if not pen.filled and not closed:
            same('start of the rotated copy', map_segs_of(curves[0])[0][0], segs[0][0], 1e-6)
        frozen = snapshot(e)
        members = list(node.builder.the_group.elems.items())
        shown = 'show' in how
        require(len(members) == count + 1 + shown, 'rotating: %d new members', len(members) - count)
        mark = members.pop()[1] if shown else None
        if shown:
            del node.builder.the_group.elems[mark.name]     # looked at below, put back there
        self.added(node, name + '_r' + extra, e, lambda n: frozen[:1] + (n,) + frozen[2:], 'rotate')
        if shown:
            node.builder.the_group.elems[mark.name] = mark
            x, y = c.xy()
            same_mark = lambda n: snapshot(ElemEllipse(n, pen, Point(x - 1, y - 1), Point(x + 1, y + 1)))
            same('marked centre', mark.bbox().center, c, 1e-9)
            equal('mark', snapshot(mark)[:5], same_mark(mark.name)[:5])
            mark_frozen = snapshot(mark)
            self.added(node, name + '_c' + extra, mark, lambda n: mark_frozen, 'mark')

    def op_replace(self, node, index, name):
        if not node.members:
            raise Disabled()
        old_name, _, elem, sub = node.members[index]
        if sub:
            raise Disabled()
        p1, p2 = self.coords()
        make = lambda: ElemEllipse(name, DIRECT['pen'](), Point(*p1), Point(*p2))
        new = make()
        try:
            n = self.root.builder.replace(elem, new)
        except ValueError:
            require(name != old_name and name in node.names(), 'replacing was refused')
            return
        require(not (name != old_name and name in node.names()), 'replacing by a name that is in use')
        equal('replacements', n, 1)
        node.members[index] = [name, lambda: snapshot(make()), new, None]

    # -- everything that can be observed

    def check(self):
        for node in self.nodes():
            b, g = node.builder, node.builder.the_group
            equal('%s: names' % node.name, list(g.elems), node.names())
            equal('%s: name of the group' % node.name, g.name, node.name)
            require(type(g) is Group and g.hidden is node.hidden and b.hidden in (True, False), '%s: hidden=%r', node.name, g.hidden)
            if node.hidden and node is not None and node.builder.name != 'wrapped':
                require(b.hidden is True, '%s: builder is not hidden', node.name)
            same('%s: transform' % node.name, g.xform.as_6tuple(), getattr(node, 'xform', IDENT))
            for (name, expect, elem, sub), got in zip(node.members, g.elems.values()):
                require(got is elem, '%s.%s is not the element that was added', node.name, name)
                require(elem.name == name, '%s.%s is named %r', node.name, name, elem.name)
                require(b.lookup(name) is elem, 'looking up %s', name)
                if not sub:
                    got, want = snapshot(elem), expect()
                    require(got == want, '%s.%s is %s, expected %s', node.name, name, got, want)
            equal('%s: points' % node.name, [(n, p.xy()) for n, p in g.points.items()], [(n, xy) for n, _, xy in node.points])
            for n, p, _ in node.points:
                require(b.lookup_pt(n) is p and p.name == n, '%s: point %s is another one', node.name, n)
            raises((KeyError, ValueError), b.lookup, 'nothing')
            raises((KeyError, AssertionError), b.lookup_pt, 'nothing')
        root = self.root
        for tag, elem in root.tags():
            require(root.builder.lookup(tag) is elem, 'looking up %s', tag)
        want = list(root.listing(root.name))
        got = list(root.builder.iter_elems())
        equal('iterating', [(n, id(e)) for n, e, _ in got], [(n, id(e)) for n, e in want])
        got = list(root.builder.iter_elems('r', Transform((2, 0, 1, 0, 2, 5))))
        equal('iterating below r', [(n, id(e)) for n, e, _ in got], [('r.' + n, id(e)) for n, e in want])
        for (n, e, t), (_, _, plain) in zip(got, root.builder.iter_elems()):
            same('mapping of %s' % n, t.as_6tuple(), mat_mul((2, 0, 1, 0, 2, 5), plain.as_6tuple()))
        shallow = list(root.builder.iter_elems_transformed('r'))
        equal('transformed members', [(type(e).__name__ == 'Group', e.name) for e in shallow],
              [(bool(m[3]), 'r.%s.%s' % (root.name, m[0])) for m in root.members])
        if any(node.members for node in self.nodes()):
            visible = root.builder.the_group.paths(canvas())
            holes_in = any(isinstance(e, ElemWithHoles) for node in self.nodes() for _, _, e, _ in node.members)
            if not holes_in:
                equal('number of outlines', len(visible), root.leaf_count())
        equal('text', root.builder.dump().output(), root.builder.the_group.dump().output())

    def canon(self):
        return self.root.expected()


def call_args(kind, closed):
    args = []
    if kind is not None:
        args = [DIRECT[kind]() if kind in DIRECT else kind]
    elif closed != 'default':
        args = [None]
    return args, {} if closed == 'default' else {'closed': closed}


SHAPES = ('rect', 'rrect', 'ellipse', 'curve')


def check_single(case, obs):
    """Every shape with every kind, style table, default and closedness"""
    shape, kind, closed, table, default, where = case
    pen = pen_of(table, default or 'edge', kind)
    shut = {'default': pen.filled if shape == 'curve' else True, None: pen.filled}.get(closed, closed)
    w = World(table, default)
    if where:
        w.apply(('group', 0, 'g'))
    if where == 2:
        w.apply(('group', 1, 'g'))
    if (pen.filled or shape != 'curve') and not shut:
        # Filled shapes and all but curves are closed
        b = w.node(where).builder
        args, kw = call_args(kind, closed)
        first = {'rect': (Point(1, 2), Point(3, 4)), 'rrect': (Point(1, 2), Point(3, 4), 1), 'ellipse': (Point(1, 2), Point(3, 4)),
                 'curve': ([ControlPoint(Point(1, 2), Vector(0, 2), Vector(0, -2)), ControlPoint(Point(5, 2), Vector(0, 2), Vector(0, -2))],)}[shape]
        raises(Exception, getattr(b, shape), 'n', *first, *args, **kw)
        w.check()
        return
    w.apply((shape, where, 'n', kind, closed))
    w.check()
    pixels = drawn(w.root.builder.draw)
    require(pixels == drawn(w.root.builder.the_group.draw), 'the builder draws something else')
    e = w.node(where).members[0][2]
    require(e.penbrush == pen, 'pen %r', e.penbrush)
    require(e.closed is shut or e.closed == shut and type(e.closed) is bool, 'closed=%r', e.closed)
    w.root.builder.display()
    w.root.builder.display(2, '  ')
    w.apply(('hide', where))
    w.check()
    require(drawn(w.root.builder.draw) != pixels or pixels == drawn(lambda dc: None), 'hidden builder is drawn')
    equal('drawn while hidden', drawn(w.root.builder.draw), drawn(lambda dc: None))
    obs.state(*case)


def check_wrong(case, obs):
    """Refused calls leave nothing behind"""
    kind, shape = case
    w = World('all')
    b = w.root.builder
    cp = [ControlPoint(Point(1, 2), Vector(0, 2), Vector(0, -2))]
    args = {'rect': ('x', Point(1, 2), Point(3, 4)), 'rrect': ('x', Point(1, 2), Point(3, 4), 1), 'ellipse': ('x', Point(1, 2), Point(3, 4)),
            'curve': ('x', cp)}[shape]
    raises(ValueError, getattr(b, shape), *args, kind)
    w.check()
    raises(ValueError, getattr(b, shape), *args, shape_kind=kind)
    w.check()
    raises(TypeError, GroupBuilder, 'x', {'edge': PenBrush('red')})
    raises(TypeError, GroupBuilder, 'x', None)
    obs.state(*case)


def check_tables(case, obs):
    """Pens by shape: what is given, and black pens for the rest"""
    given, = case
    pens = {k: PenBrush(('red', n + 1), None if n % 2 else 'blue') for n, k in enumerate(KINDS)}
    t = PensByShape(**{k: pens[k] for k in given})
    equal('kinds', sorted(t.keys()), sorted(KINDS))
    for k in KINDS:
        want = pens[k] if k in given else DEFAULT
        require(t[k] == want and getattr(t, k) == want, '%s: %r', k, t[k])
        require(eval(repr(t))[k] == want, 'text %r describes another table', t)
    require(isinstance(str(t), str), 'no text')
    for wrong in ('', 'Edge', 'edges', None, 'keys', 'make', '__class__', 0):
        raises(ValueError, t.__getitem__, wrong)
    for width in (0, 0.5, 3, -2):
        r = t.replace_width(width)
        require(isinstance(r, PensByShape) and r is not t, 'replace_width: %r', r)
        for k in KINDS:
            want = pens[k] if k in given else DEFAULT
            require(r[k] == PenBrush(Pen(want.pen.brush, width), want.brush), '%s with width %r: %r', k, width, r[k])
            require(t[k] == want, 'replace_width changed the table')
        obs.state(given, width)


def check_make(case, obs):
    """Standard tables: thin outlines in draft, otherwise pens and fillings as the kind says"""
    draft, color, fill, clear, width = case
    kw = {k: v for k, v in zip(('draft', 'color', 'fill', 'transparent', 'width'), case) if v is not None}
    t = PensByShape.make(**kw)
    color = 'white' if color is None else color
    fill = TRANSPARENT if fill is None else fill
    clear = TRANSPARENT if clear is None else clear
    width = 0 if width is None else width
    thin = (color, 0), None
    full = {'edge': ((color, width), None), 'filled': (None, color), 'clear': (None, clear), 'edge_filled': ((color, width), fill),
            'edge_clear': ((color, width), clear)}
    for k in KINDS:
        pen, brush = full[k] if draft is False else thin
        got = t[k]
        require((got.pen and (got.stroke_color, got.pen.width)) == pen and got.fill_color == brush, '%s: %r', k, got)
        obs.state(k, *case)


def check_demo(case, obs):
    """The example model: the same whenever it is generated, and never shared"""
    a, b = gen_test_model(), gen_test_model()
    require(isinstance(a, GroupBuilder), 'example is a %s', type(a).__name__)
    text = a.dump().output()
    equal('second example', b.dump().output(), text)
    a.point('more', 1, 2)
    a.lookup_pt('point').setxy(1, 1)
    a.rect('more', Point(0, 0), Point(1, 1))
    a.hide()
    equal('second example after changing the first', b.dump().output(), text)
    require(a.dump().output() != text, 'changing the first did nothing')
    equal('third example', gen_test_model().dump().output(), text)
    obs.state(text)


def alphabet(deep):
    ops = [
        ('rect', 0, 'a', None), ('rrect', 0, 'b', 'filled'), ('ellipse', 0, 'a', 'edge_clear'), ('curve', 0, 'c', None), ('curve', 0, 'c', 'filled'),
        ('curve', 0, 'd', 'pen', True), ('curve', 0, 'd', None, 'default', 'p'),
        ('group', 0, 'g'), ('group', 0, 'a', 'some', 'filled'), ('point', 0, 'p', 'point'), ('point', 0, 'q', 'same'), ('move', 0, 'p'), ('hide', 0),
        ('rotate', 0, 0, 30), ('rotate', 0, -1, -90, 'show extra'), ('replace', 0, 0, 'a'),
        ('rect', 1, 'a', None), ('curve', 1, 'a', 'both'), ('ellipse', 1, 'b', 'edge'), ('group', 1, 'g', None, 'edge_filled'), ('point', 1, 'p', 'add'),
        ('hide', 1), ('rotate', 1, 0, 30, 'extra'), ('replace', 1, 0, 'z'), ('add', 1, 'e', 'rect'),
        ('curve', 2, 'a', None), ('rect', 2, 'r', None), ('hide', 2),
    ]
    ops += [('group', 1, 'k', 'edges')]
    if deep:
        ops += [('add', 0, 'h', 'holes'), ('add', 0, 'x', 'hidden'), ('group', 2, 'g'), ('rrect', 3, 'a', None), ('rotate', 0, 0, 30, 'show'),
                ('move', 1, 'p'), ('curve', 1, 'd', 'edge', True, 'p'), ('replace', 2, 0, 'a'), ('rotate', 2, 0, 400)]
    return ops


SHORT = [('rect', 0, 'a', None), ('curve', 0, 'a', 'filled'), ('group', 0, 'a'), ('group', 0, 'g', 'edges', 'filled'), ('group', 0, 'h', 'all'), ('rrect', 1, 'a', None),
         ('curve', 1, 'b', None), ('rotate', 0, 0, 45), ('rotate', 1, -1, 45), ('hide', 1), ('group', 1, 'g'), ('ellipse', 2, 'a', None), ('replace', 0, 0, 'n')]


def run(ctx):
    ctx.assume('Elements rotated about their centre are single shapes; names are not empty; points have unique names')
    deep = ctx.deep
    kinds = (None,) + KINDS + tuple(DIRECT)
    ctx.sweep('single', [(s, k, c, t, d, w) for s in SHAPES for k in kinds for c in ('default', None, True, False) for t in TABLES
                         for d in (None, 'filled', 'edge_clear', 'edge_filled') for w in (0, 1, 2)], check_single,
              'every shape with every kind, style table, default kind and closedness, in nested builders')
    ctx.sweep('wrong', [(k, s) for k in ('Edge', 'edges', 'keys', 5, 'replace_width') for s in SHAPES], check_wrong, 'unknown kinds of shapes')
    ctx.sweep('tables', [(g,) for r in range(6) for g in itertools.combinations(KINDS, r)], check_tables, 'tables of pens')
    ctx.sweep('standard tables', [c for c in itertools.product((None, True, False), (None, 'red', (1, 2, 3)), (None, 'blue'), (None, 'pink'), (None, 0, 2.5, -1))],
              check_make, 'standard tables for all combinations of arguments')
    pts = [('point', 0, 'p', 'point'), ('point', 0, 'q', 'same'), ('point', 0, 'r', 'add'), ('move', 0, 'p'), ('move', 0, 'q'), ('move', 0, 'r'),
           ('curve', 0, 'c', None, 'default', 'p'), ('curve', 0, 'd', None, 'default', 'q'), ('group', 0, 'g'), ('point', 1, 'p', 'point'), ('move', 1, 'p')]
    ctx.histories('points', lambda: World('all'), pts, ctx.pick(4, 5), 'named points, several of them at the same place, moved and used by shapes')
    ctx.sweep('example', [()], check_demo, 'the example model')
    ctx.histories('calls', lambda: World('all'), alphabet(deep), 4, 'builder calls on nested builders, in lockstep with a description')
    ctx.histories('given group', lambda: World('edges', 'edge_filled', True), alphabet(True), ctx.pick(2, 3), 'builder around a given group')
    ctx.histories('long', lambda: World('some', 'edge_clear'), SHORT, ctx.pick(4, 6), 'longer sequences of fewer calls')
