"""C16: names in a group stay unique, everything added is kept and can be looked up"""
from mc.engine import equal, require, raises, same, Disabled, Violation
from mc.oracle import *
from mc.models import *

REFUSED = (KeyError, ValueError)
COUNT = [0]


def fresh(kind):
    """A new element, distinguishable from all others"""
    COUNT[0] += 1
    n = COUNT[0]
    pen = PenBrush(('red', n))
    p1, p2 = Point(n, 0), Point(n + 1, 2 * n)
    if kind == 'rect':
        return ElemRectangle('new', pen, p1, p2)
    if kind == 'rrect':
        return ElemRectangleRounded('new', pen, p1, p2, 0.25)
    if kind == 'ellipse':
        return ElemEllipse('new', pen, p1, p2)
    if kind == 'curve':
        return ElemCurve('new', pen, [ControlPoint(p1, Vector(1, 0), Vector(-1, 1)), ControlPoint(p2, Vector(0, 1), Vector(0, -2))])
    if kind == 'holes':
        return ElemWithHoles('new', pen, ElemRectangle('out', pen, Point(-n - 9, -9), Point(9, 9)),
                             [ElemEllipse('in10', pen, Point(1, 1), Point(2, 2)), ElemRectangle('in1', pen, Point(0, 0), Point(-1, -1)),
                              ElemEllipse('in', pen, Point(3, 1), Point(2, 2)), ElemEllipse('outer', pen, Point(3, 3), Point(4, 4))])
    if kind == 'grouped holes':
        out, ins, deep = Group('out', pen), Group('in', pen), Group('deep', pen)
        out.add('a', ElemRectangle('a', pen, Point(-n - 9, -9), Point(9, 9)))
        deep.add('in', ElemEllipse('in', pen, Point(1, 1), Point(2, 2)))
        ins.add('deep', deep)
        ins.add('in', ElemRectangle('in', pen, Point(0, 0), Point(-1, -1)))
        return ElemWithHoles('new', pen, out, [ElemEllipse('in1', pen, Point(3, 3), Point(4, 4)), ins])
    if kind == 'group':
        g = Group('new', pen)
        g.add('m', fresh('rect'))
        return g
    raise KeyError(kind)


def parts(root, e):
    """(path, object) of everything in an element that never changes"""
    if isinstance(e, Group):
        for n, m in e.elems.items():
            yield from parts(root + '.' + n, m)
    elif isinstance(e, ElemWithHoles):
        yield from parts(root + '.outside.' + e.outside.name, e.outside)
        for i in e.inside:
            yield from parts(root + '.inside.' + i.name, i)
    else:
        yield root, e


class Model(object):
    """Ordered members of a group: [(name, object, Model if it is a group)]"""
    def __init__(self, group):
        self.group = group
        self.members = []
        self.points = []
        for n, e in group.elems.items():
            self.put(n, e)
        for n, p in group.points.items():
            self.points.append((n, p))

    def put(self, name, elem):
        self.members.append((name, elem, Model(elem) if isinstance(elem, Group) else None))

    def names(self):
        return [m[0] for m in self.members]

    def expect_listing(self, root):
        """(path, object) of everything"""
        for n, e, sub in self.members:
            if sub:
                yield from sub.expect_listing(root + '.' + n)
            else:
                yield from parts(root + '.' + n, e)

    def pens(self):
        """Stroke widths in drawing order"""
        for n, e, sub in self.members:
            if sub:
                yield from sub.pens()
            else:
                yield from [e.penbrush.pen.width] * len(list(parts('', e)))

    def canon(self):
        return tuple((n, type(e).__name__, sub and sub.canon()) for n, e, sub in self.members), tuple(n for n, _ in self.points)


class World(object):
    def __init__(self, nested):
        COUNT[0] = 0
        top = Group('top', PenBrush('black'), False)
        if nested:
            inner = Group('?', PenBrush('black'), xform=Transform().translate(1, 2))
            inner.add('a', fresh('rect'))
            sub = Group('?', PenBrush('black'))
            sub.add('inner', inner)
            sub.add('b', fresh('curve'))
            top.add('sub', sub)
            top.add('w', fresh('holes'))
            top.add('v', fresh('grouped holes'))
        self.bind(top)

    def bind(self, top):
        self.top = top
        self.model = Model(top)
        self.extra = None

    def target(self, which):
        m = self.model
        for name in which:
            found = [sub for n, _, sub in m.members if n == name and sub]
            if not found:
                raise Disabled()
            m = found[0]
        return m

    def apply(self, op):
        what, where, *args = op
        m = self.target(where)
        if what == 'add':
            self.add(m, *args)
        elif what == 'replace':
            self.replace(m, *args)
        elif what == 'point':
            self.point(m, *args)
        elif what == 'remove':
            if args[0] >= len(m.members):
                raise Disabled()
            n, e, _ = m.members.pop(args[0])
            require(m.group.elems.pop(n) is e, 'removed another element')
        elif what == 'copy':
            self.bind(self.top.copy())
        elif what == 'restore':
            other = self.top.copy()
            other.add('lost', fresh('rect'), fixname=True)
            other.restore(self.top)
            self.bind(other)

    def add(self, m, name, fixname, kind):
        elem = fresh(kind)
        old = elem.name
        before = list(m.group.elems.items())
        try:
            m.group.add(name, elem, fixname=fixname) if fixname is not None else m.group.add(name, elem)
        except ValueError:
            require(not fixname, 'adding %r with automatic renaming is refused', name)
            require('.' in name or name in m.names(), 'adding %r is refused', name)
            require(list(m.group.elems.items()) == before and elem.name == old, 'refused addition of %r has changed the group', name)
            return
        got = list(m.group.elems.items())
        require(len(got) == len(before) + 1, 'after adding %r: %d members instead of %d', name, len(got), len(before) + 1)
        key = got[-1][0]
        require(got[-1][1] is elem, 'element added as %r is not the last one', name)
        if '.' not in name and name not in m.names():
            equal('name of the added element', key, name)
        elif fixname and name.rpartition('.')[2] not in m.names():
            equal('name of the added element', key, name.rpartition('.')[2])
        else:
            require('.' not in key and key, 'added %r under the name %r', name, key)
        m.put(key, elem)

    def replace(self, m, index, name, kind):
        if index >= len(m.members):
            raise Disabled()
        was, old, _ = m.members[index]
        new = fresh(kind)
        new.name = name
        try:
            n = self.top.replace(old, new)
        except ValueError:
            require('.' in name or (name != was and name in m.names()), 'replacing %r by %r is refused', was, name)
            return
        require('.' not in name and (name == was or name not in m.names()), 'replaced %r by %r in spite of the name', was, name)
        equal('number of replacements', n, 1)
        m.members[index] = (name, new, Model(new) if isinstance(new, Group) else None)

    def point(self, m, name, *named):
        pt = Point(len(m.points), 7, *named)
        if name in [n for n, _ in m.points]:
            there = m.group.points[name]
            for other in (pt, Point(*there.xy()), Point(*there.xy(), name), there.copy(), PointRelative(0, 0, there, name), there):
                text = repr(other)
                raises(REFUSED + (AssertionError,), m.group.add_pt, name, other)
                equal('point that was refused', repr(other), text)
                require(m.group.points[name] is there, 'the point %r was replaced by %r', name, other)
        elif '.' in name:
            raises(REFUSED + (AssertionError,), m.group.add_pt, name, pt)
        else:
            require(m.group.add_pt(name, pt) is pt, 'add_pt returns another point')
            m.points.append((name, pt))

    def check(self):
        self.check_group(self.model)
        top = self.top
        listing = [(p, e) for p, e, _ in top.iter_elems()]
        want = list(self.model.expect_listing('top'))
        equal('paths listed', [p for p, _ in listing], [p for p, _ in want])
        require(all(a is b for (_, a), (_, b) in zip(listing, want)), 'deep listing has other elements')
        for path, e in want:
            require(top.lookup(path.partition('.')[2]) is e, 'lookup of %r yields another element', path)
            known = [p for p, _ in want]
            for bad in (path.partition('.')[2] + 'x', path.partition('.')[2] + '.x', 'nope.' + path, path + '.outside', '.' + path.partition('.')[2], path.partition('.')[2] + '.', '..' + path, path.partition('.')[2].replace('.', '..') + '.', path.partition('.')[2] + '.inside.' + e.name):
                raises(REFUSED, top.lookup, bad)
            for bad in (path[:-1], path.replace('inside', 'outside'), path.replace('outside', 'inside'), path.replace('inside', 'in'), path + '#'):
                if bad not in known and bad[-1] != '.' and not self.is_inner(bad.partition('.')[2]):
                    raises(REFUSED, top.lookup, bad.partition('.')[2])
        under = [p for p, _, _ in top.iter_elems('above')]
        equal('paths listed below another root', under, ['above.' + p for p, _ in want])
        short = [(e.name) for e in top.iter_elems_transformed()]
        equal('shallow listing', [n for n in short if n.count('.') == 1], ['top.' + n for n, e, _ in self.model.members])
        dc = canvas()
        equal('drawing order', [p.penbrush.pen.width for p in top.paths(dc)], list(self.model.pens()))

    def is_inner(self, path):
        """Whether path leads to a group or an element with holes"""
        m = self.model
        seen = []
        for name in path.split('.'):
            seen.append(name)
            found = [(e, sub) for n, e, sub in m.members if n == name]
            if not found:
                return False
            e, m = found[0]
            if not m:
                rest = '.' + path[len('.'.join(seen)):].lstrip('.')
                return rest == '.' or rest in ('.outside.out', '.inside.in', '.inside.in.deep')
        return True

    def check_group(self, m):
        g = m.group
        equal('names', list(g.elems.keys()), m.names())
        require(len(set(m.names())) == len(m.members), 'names are not unique: %s', m.names())
        for n, e, sub in m.members:
            require(g.elems[n] is e, 'member %r is another element', n)
            equal('name of member %r' % n, e.name, n)
            require('.' not in n, 'name %r has a dot', n)
            require(g.lookup(n) is e, 'lookup of member %r yields another element', n)
            if sub:
                self.check_group(sub)
        for n in m.names():
            # A path starts with a member, it does not repeat the name of the group
            if g.name not in m.names():
                raises(REFUSED, g.lookup, g.name + '.' + n)
                raises(REFUSED, g.lookup, g.name + '.' + g.name + '.' + n)
        for n in ['nope', 'a.nope', 'nope.a', '', '.', '..'] + ['.' + n for n in m.names()] + [n + '.' for n in m.names()] + [n + '..' for n in m.names()] + [n + ' ' for n in m.names()]:
            raises(REFUSED, g.lookup, n)
        equal('points', list(g.points.keys()), [n for n, _ in m.points])
        for n, p in m.points:
            require(g.lookup_pt(n) is p and p.name == n, 'point %r', n)
        for n in ('nope', 'a.b'):
            raises(REFUSED + (AssertionError,), g.lookup_pt, n)

    def canon(self):
        return self.model.canon()


def deep(case, obs):
    """Paths of any length"""
    depth, kind, named = case
    path = []
    e = leaf = fresh('rect')
    for n in range(depth):
        name = named if named else 'n%d' % n
        g = Group('?', PenBrush('black'), xform=Transform().translate(n % 3, 1)) if n % 2 else Group('?', PenBrush('black'))
        g.add(name, e)
        g.add('other', fresh('rect'))
        path.insert(0, name)
        e = g
    if kind == 'holes':
        top = Group('top', PenBrush('black'))
        e.name = 'in'
        top.add('w', ElemWithHoles('w', PenBrush('black'), ElemRectangle('out', PenBrush('black'), Point(-99, -99), Point(99, 99)), [e]))
        path[:0] = ['w', 'inside', 'in']
        e = top
    e.name = 'top'
    for g in (e, e.copy()):
        listing = [(p, x) for p, x, _ in g.iter_elems()]
        equal('paths listed', [p for p, _ in listing if not p.endswith(('other', 'out'))], ['top.' + '.'.join(path)])
        require(len(listing) == depth + 1 + (kind == 'holes'), '%d elements listed', len(listing))
        for p, x in listing:
            p = p.partition('.')[2]
            require(g.lookup(p) is x, 'lookup of %r yields another element', p)
            for bad in (p + '.x', p[:-1] + '#', p.partition('.')[2] + '.' + p, p.rpartition('.')[0] + '.nope'):
                raises(REFUSED, g.lookup, bad)
    require(e.lookup('.'.join(path)) is leaf, 'lookup yields another element')
    obs.step(depth)
    obs.state(case)


def made_of(case, obs):
    """Groups made of elements, in every form they can be given"""
    names, form = case
    elems = [fresh('rect' if len(n) % 2 else 'ellipse') for n in names]
    for n, e in zip(names, elems):
        e.name = n
    if form == 'dict':
        given = dict(zip(names, elems))
    else:
        given = list(elems) if form == 'list' else tuple(elems)
    g = Group('g', PenBrush('red'), elems=given)
    equal('names', list(g.elems), list(names))
    require(all(a is b for a, b in zip(g.elems.values(), elems)), 'other elements')
    require(all(g.lookup(n) is e and e.name == n for n, e in zip(names, elems)), 'lookup')
    equal('listing', [n for n, _, _ in g.iter_elems()], ['g.' + n for n in names])
    new = fresh('rect')
    g.add(names[0] if names else 'a', new, fixname=True)
    require(list(g.elems.values())[-1] is new and len(g.elems) == len(names) + 1 and g.lookup(new.name) is new, 'adding to it')
    obs.state(case)


def run(ctx):
    ctx.sweep('depth', [(n, k, s) for n in list(range(1, 30)) + [40, 60, 100] for k in ('groups', 'holes') for s in (None, 'a')], deep, 'paths through any number of groups')
    import itertools
    ctx.sweep('made of', [(t, f) for n in range(5) for t in itertools.permutations(('b', 'a', 'rect', 'rectangle#0'), n) for f in ('list', 'tuple', 'dict')], made_of,
              'groups made of lists, tuples and dicts of elements')
    names = ['a', 'b', 'x.a', 'p.q.b', 'rect#0']
    adds = [('add', (), n, f, 'rect') for n in names for f in (None, False, True)]
    adds += [('add', (), 'a', True, k) for k in ('group', 'holes', 'curve')]
    adds += [('add', (), 'rectangle#0', False, 'rect'), ('add', (), 'rectangle#1', True, 'rect')]
    ctx.histories('flat', lambda: World(False), adds + [('copy', ()), ('restore', ()), ('remove', (), 0), ('remove', (), 1)], ctx.pick(3, 4),
                  'all sequences of additions of colliding, dotted and free names, with and without automatic renaming')
    more = [('remove', (), 0), ('remove', (), 2)] + [('add', (), n, True, 'rect') for n in ('a', 'x.a', 'rectangle#0', 'rectangle#2')] + [('add', (), 'group#0', True, 'group'), ('add', (), 'sub', True, 'group')]
    ctx.histories('renaming', lambda: World(False), more, ctx.pick(5, 7), 'long runs of colliding names')
    ops = [('add', w, n, f, k) for w in ((), ('sub',), ('sub', 'inner')) for n, f, k in (('a', False, 'rect'), ('b', True, 'curve'), ('t.a', True, 'group'), ('w', None, 'holes'))]
    ops += [('replace', w, i, n, k) for w, i in (((), 0), ((), 1), (('sub',), 0), (('sub',), 1), (('sub', 'inner'), 0))
            for n, k in (('a', 'rect'), ('b', 'holes'), ('sub', 'group'), ('inner', 'group'), ('x.y', 'rect'), ('w', 'curve'))]
    ops += [('point', w, n) for w in ((), ('sub',)) for n in ('a', 'b', 'x.y')]
    ops += [('point', (), 'a', 'old'), ('point', ('sub',), 'c', 'a'), ('remove', (), 0), ('remove', ('sub',), 0), ('remove', ('sub',), 1)]
    ops += [('copy', ()), ('restore', ())]
    ctx.histories('nested', lambda: World(True), ops, ctx.pick(2, 3),
                  'additions and replacements in nested groups and beside an element with holes, named points, copies')
    ctx.histories('points', lambda: World(True), [('point', w, n) for w, n in (((), 'a'), ((), 'b'), ((), 'x.y'), (('sub',), 'a'), (('sub',), 'b'), (('sub',), 'x.y'), (('sub', 'inner'), 'a'))] +
                  [('point', (), 'a', 'other'), ('point', ('sub',), 'b', 'a'), ('copy', ()), ('restore', ())], ctx.pick(4, 5), 'named points of nested groups')
    ctx.assume('Without automatic renaming, adding a name that is taken may be refused or lead to a new unique name.',
               'The same element object is not added twice, names are not empty, names are not assigned behind the back of the group.')
