"""C17: replacing an element swaps exactly the matching ones, wherever they are"""
import itertools
from mc.engine import equal, require, Disabled, Violation
from mc.oracle import *
from mc.models import *

R = single('rect', pen='both')
C = single('curve', 'turn', pen='both')
E = re(SMALL['ellipse'], name='e')


def W(*inside, outside=None, name='w', xf=None):
    return D('holes', name, 'both', xf, outside=outside or re(LEAVES['circle'], name='k', p1=(-20, -20), p2=(20, 20), pen='both'), inside=list(inside))


def G(name, *elems, xf=None, **kw):
    return D('group', name, 'thin', xf, elems=list(elems), **kw)


def P(name, *elems, xf=None):
    """A group that can be part of an element with holes"""
    return D('group', name, 'both', xf, elems=list(elems), closed=True)


TURN = XFORMS['turn']
BIG = re(LEAVES['circle'], name='k', p1=(-20, -20), p2=(20, 20), pen='both')
RR = single('rrect', pen='both')
MODELS = {
    'resembling': G('top', RR, G('a', re(RR, radius=0.5), C), W(re(RR, radius=0.75), re(C, name='c2'), C, outside=re(BIG, xform=(1, 0, 0, 0, 1, 1e-3))), BIG),
    'empty': G('top'),
    'single': G('top', R),
    'row': G('top', C, R, E),
    'deep': G('top', G('a', G('b', R, C, xf=TURN), R), R, C, G('h', R, hidden=True), points={'q': (1, 2)}),
    'holes': G('top', R, W(R, E), G('g', W(C, R, name='w2', xf=TURN), R), E),
    'outside': G('top', W(E, R, outside=BIG), BIG, G('g', W(E, outside=BIG, name='v'), BIG)),
    'equal groups': G('top', G('a', G('s', R, E), C), G('b', G('s', R, E), xf=TURN), G('s', R)),
    'equal holes': G('top', W(R), G('a', W(R), R), W(R, E, name='x')),
    'lookalikes': G('top', R, G('a', re(R, name='other'), re(R, xform=TURN), C), G('b', re(R, pen='line')), G('d', R)),
    'conflict deep': G('top', C, G('a', R, G('b', R, E)), R),
    'grouped holes': G('top', R, W(P('hg', R, P('hh', E, R, xf=TURN)), R, outside=P('out', R, E)), C),
    'nested holes': G('top', G('g', G('h', W(R, C, E), xf=TURN))),
}


class Node(object):
    def __init__(self, obj):
        self.obj = obj
        self.kids = [Node(o) for o in parts(obj)]

    def all(self):
        for k in self.kids:
            yield k
            yield from k.all()


def parts(obj):
    if isinstance(obj, Group):
        return list(obj.elems.values())
    if isinstance(obj, ElemWithHoles):
        return [obj.outside] + list(obj.inside)
    return []


def alter(e, how):
    """Change one thing about an element that is easily overlooked"""
    what = how.partition(' ')[2]
    if what == 'pen':
        p = e.penbrush
        e.penbrush = PenBrush(Pen(p.pen.brush, p.pen.width + 0.5), p.brush)
    elif what == 'fill':
        e.penbrush = PenBrush(e.penbrush.pen, Brush((9, 9, 9, 255)))
    elif what == 'closed':
        e.closed = not e.closed
    elif what == 'xform':
        e.xform.translate(0, 1e-3)
    elif what == 'order':
        if hasattr(e, 'control_points'):
            e.control_points = e.control_points[1:] + e.control_points[:1]
        elif hasattr(e, 'p1'):
            e.p1, e.p2 = e.p2, e.p1
    elif what == 'shape':
        for x in [e] + parts(e):
            if hasattr(x, 'radius'):
                x.radius *= 1.5
            elif hasattr(x, 'control_points'):
                x.control_points[-1].dr = x.control_points[-1].dr * 0.5
            elif hasattr(x, 'p1'):
                x.p1 = Point(x.p1.x, x.p1.y - 1e-3)


def tree_ids(obj):
    return id(obj), tuple(tree_ids(o) for o in parts(obj))


def node_ids(node):
    return id(node.obj), tuple(node_ids(k) for k in node.kids)


class World(object):
    def __init__(self, d, use_holes_root=False):
        self.top = build(d)
        self.root = Node(self.top)
        self.undo = []
        self.start = snapshot(self.top)
        self.fixed = [(n.obj, snapshot(n.obj)) for n in self.root.all() if not n.kids]

    def expect(self, node, new, dry):
        """Replace in the model.  Returns count; None if there is a conflict"""
        count = 0
        names = [k.obj.name for k in node.kids]
        for i, k in enumerate(node.kids):
            if k.match:
                if isinstance(node.obj, Group) and ('.' in new.name or new.name in names[:i] + names[i+1:]):
                    return None
                if not dry:
                    node.kids[i] = Node(new)
                count += 1
            else:
                n = self.expect(k, new, dry)
                if n is None:
                    return None
                count += n
        return count

    def apply(self, op):
        what = op[0]
        if what == 'back':
            if not self.undo:
                raise Disabled()
            old, new, before, replaced = self.undo.pop()
            if any(n.obj is old for n in self.root.all()):
                raise Disabled()
            self.replace(new, old)
            self.undo.pop()
            if replaced:
                equal('model after replacing back', snapshot(self.top), before)
            return
        _, which, how, name, kind = op
        nodes = list(self.root.all())
        if which == 'absent':
            old = build(re(R, p1=(-2.5, -1)))
        elif which == 'top':
            old = self.top
        else:
            if which >= len(nodes):
                raise Disabled()
            old = nodes[which].obj
        key_elem = old if how == 'same' else old.copy()
        if how.startswith('similar'):
            alter(key_elem, how)
        if kind == 'copy':
            new = old.copy()
        elif kind == 'wrap':
            new = Group('wrap', PENS['thin'](), False)
            new.add(old.name.replace('.', '_'), old.copy())
        elif kind == 'holes':
            new = build(W(E))
        else:
            new = build(re(R if kind == 'rect' else C, name='new', pen='both'))
        new.name = old.name if name is None else name
        if snapshot(new) == snapshot(key_elem) and kind != 'copy':
            raise Disabled()
        if isinstance(self.top, ElemWithHoles) and isinstance(new, (Group, ElemWithHoles)):
            raise Disabled()
        self.replace(key_elem, new)

    def in_holes(self):
        return any(k.match for n in [self.root] + list(self.root.all()) if isinstance(n.obj, ElemWithHoles) for k in n.kids)

    def replace(self, old, new):
        key = snapshot(old)
        for n in self.root.all():
            n.match = snapshot(n.obj) == key
        if isinstance(new, (Group, ElemWithHoles)) and self.in_holes():
            raise Disabled()        # Composite replacements of parts of elements with holes are not claimed
        shared = [id(n.obj) for n in self.root.all() if n.kids and any(k.match for k in n.all())]
        if len(shared) != len(set(shared)):
            raise Disabled()        # It is a part of a group that is itself in several places
        before = snapshot(self.top)
        ids = tree_ids(self.top)
        snap = snapshot(new)
        already = any(snapshot(n.obj) == snap for n in self.root.all())
        want = self.expect(self.root, new, True)
        if want is None:
            try:
                got = self.top.replace(old, new)
            except ValueError:
                equal('model after refused replacement', snapshot(self.top), before)
                equal('elements after refused replacement', tree_ids(self.top), ids)
                self.undo.append((old, new, before, False))
                return
            raise Violation('replacement by %r is not refused but replaces %r' % (new.name, got))
        self.expect(self.root, new, False)
        got = self.top.replace(old, new)
        equal('number of replacements', got, want)
        if want == 0:
            equal('model without a match', snapshot(self.top), before)
        self.undo.append((old, new, before, not already))

    def check(self):
        self.check_names(self.top)
        equal('elements of the model', tree_ids(self.top), node_ids(self.root))
        for obj, snap in self.fixed:
            equal('an original element', snapshot(obj), snap)

    def check_names(self, obj):
        if isinstance(obj, Group):
            for n, e in obj.elems.items():
                equal('name of member %r' % n, e.name, n)
        for e in parts(obj):
            self.check_names(e)

    def canon(self):
        return snapshot(self.top), len(self.undo)


VARIANTS = [('copy', 'fresh', 'curve'), ('same', 'r', 'curve'), ('copy', None, 'wrap'), ('same', None, 'copy'), ('copy', 'x.y', 'rect'),
            ('copy', None, 'rect'), ('copy', 'c', 'rect'), ('same', 'fresh', 'wrap'), ('copy', 'e', 'holes')]


def run(ctx):
    for name, d in MODELS.items():
        n = len(list(Node(build(d)).all()))

        def ops(variants):
            return [('replace', i, *v) for i in list(range(n)) + ['absent', 'top'] for v in variants] + [('back',)]
        about = 'replacing any element or nothing by elements of every kind, with the same, a free or a taken name, and back, in: ' + name
        ctx.histories(name, lambda: World(d), ops(VARIANTS if ctx.deep or n < 6 else VARIANTS[:4]), ctx.pick(2, 3 if n < 6 else 2), about)
        if not ctx.deep and n >= 6:
            ctx.histories(name + ' once', lambda: World(d), ops(VARIANTS), 1, about)
    if ctx.deep:
        for name in ('deep', 'holes', 'equal groups', 'nested holes'):
            d = MODELS[name]
            n = len(list(Node(build(d)).all()))
            ops = [('replace', i, 'copy', nm, kind) for i in range(n) for nm, kind in (('fresh', 'curve'), (None, 'rect'), ('fresh', 'wrap'))] + [('back',)]
            ctx.histories(name + ' again', lambda: World(d), ops, 3, 'longer runs of replacements')
    for name, d in (('holes alone', W(R, C, E)), ('turned', W(re(E, name='r'), R, R, xf=TURN))):
        ops = [('replace', i, how, nm, kind) for i in list(range(len(d['inside']) + 1)) + ['absent', 'top'] for how, nm, kind in (
            ('same', None, 'copy'), ('copy', None, 'rect'), ('copy', 'fresh', 'curve'), ('same', 'fresh2', 'rect'))] + [('back',)]
        ctx.histories(name, lambda: World(d), ops, ctx.pick(3, 4), 'replacing parts of an element with holes by itself')
    for name in ('resembling', 'lookalikes', 'outside', 'grouped holes', 'equal groups'):
        d = MODELS[name]
        n = len(list(Node(build(d)).all()))
        ops = [('replace', i, 'similar ' + what, 'fresh', kind) for i in range(n) for what in ('pen', 'fill', 'closed', 'xform', 'order', 'shape')
               for kind in ('curve', 'copy')] + [('replace', i, 'copy', None, 'curve') for i in range(n)]
        ctx.histories(name + ', almost', lambda: World(d), ops, ctx.pick(1, 2), 'looking for elements that differ in one detail from those of: ' + name)
    ctx.assume('The replacement is not already part of the model, and groups are not members of several groups when something inside is replaced. Parts of elements with holes are replaced by simple elements.')
