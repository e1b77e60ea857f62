"""
Edits of elements, in place, each together with the same edit of the description.  Each makes another state every time.
"""
from mc.engine import Disabled
from mc.oracle import *
from mc.models import *

MOVE = (1, 0, 3, 0, 1, -4)
TURN = (0, -1, 2, 1, 0, 0)


def at(d, path, f):
    """d with f applied to the description at path (indices of members; 'o' is the outside of an element with holes)"""
    if not path:
        return f(d)
    i, rest = path[0], path[1:]
    if d['kind'] == 'group':
        return re(d, elems=[at(e, rest, f) if n == i else e for n, e in enumerate(d['elems'])])
    if i == 'o':
        return re(d, outside=at(d['outside'], rest, f))
    return re(d, inside=[at(e, rest, f) if n == i else e for n, e in enumerate(d['inside'])])


def elem_at(e, path):
    for i in path:
        if not isinstance(e, (Group, ElemWithHoles)):
            raise Disabled()
        if isinstance(e, Group):
            e = list(e.elems.values())[i]
        else:
            e = e.outside if i == 'o' else e.inside[i]
    return e


def move_anchor(e, d):
    c, *rest = d['cps'][0]
    c = c[0] + 1.5, c[1] - 2
    e.control_points[0].c.setxy(*c)
    return re(d, cps=[(c, *rest)] + list(d['cps'][1:]))


def handles(e, d):
    c, dl, dr, *k = d['cps'][-1]
    dl, dr = (dl[0] + 1, dl[1]), (dr[0] * 2, dr[1] + 0.5)
    cp = e.control_points[-1]
    cp.dl = Vector(*dl)
    cp.dr.setxy(*dr)
    cp.kind = 'edited'
    return re(d, cps=list(d['cps'][:-1]) + [(c, dl, dr, 'edited')])


def append_cp(e, d):
    s = ((9, 9), (1, 0), (-1, 0), 'sharp')
    e.control_points.append(make_cp(s))
    return re(d, cps=list(d['cps']) + [s])


def drop_cp(e, d):
    if len(d['cps']) < 3:
        raise Disabled()
    del e.control_points[0]
    return re(d, cps=list(d['cps'][1:]))


def open_close(e, d):
    if e.penbrush.filled:
        raise Disabled()
    e.closed = not e.closed
    return re(d, closed=not d.get('closed', d['kind'] != 'group'))


def corner(e, d):
    p = d['p2'][0] + 3, d['p2'][1] - 1
    e.p2.setxy(*p)
    return re(d, p2=p)


def resize(e, d):
    b = BBox(d['p1'][0] - 1, d['p1'][1], d['p2'][0], d['p2'][1] + 2)
    e.bbox_int_update(b)
    return re(d, p1=(b.xl, b.yl), p2=(b.xh, b.yh))


def radius(e, d):
    e.radius = {1: 0, 0: 1.25}.get(d['radius'], d['radius'] + 0.25)
    return re(d, radius=e.radius)


def xform_inplace(e, d):
    e.xform.translate(3, -4)
    return re(d, xform=mat_mul(MOVE, d['xform'] or IDENT))


def xform_new(e, d):
    e.xform = Transform(TURN)
    return re(d, xform=TURN)


def style(e, d):
    if e.closed:
        pen = {'both': 'scaled', 'scaled': 'fill'}.get(d['pen'], 'both')
    else:
        pen = {'line': 'thin'}.get(d['pen'], 'line')
    e.penbrush = PENS[pen]()
    return re(d, pen=pen)


def rename(e, d):
    e.name = d['name'] + 'x'
    return re(d, name=d['name'] + 'x')


def hide(e, d):
    e.hidden = not e.hidden
    return re(d, hidden=not d.get('hidden', False))


def add_member(e, d):
    n = single('rect', name='new%d' % len(d['elems']))
    e.add(n['name'], build(n))
    return re(d, elems=d['elems'] + [n])


def drop_member(e, d):
    if not d['elems']:
        raise Disabled()
    del e.elems[d['elems'][0]['name']]
    return re(d, elems=d['elems'][1:])


def swap_member(e, d):
    """Another object in the place of the first member"""
    if not d['elems']:
        raise Disabled()
    n = single('circle', name=d['elems'][0]['name'])
    e.elems[n['name']] = build(n)
    return re(d, elems=[n] + d['elems'][1:])


def reorder(e, d):
    """The first member becomes the last one"""
    if len(d['elems']) < 2:
        raise Disabled()
    x = e.elems.pop(d['elems'][0]['name'])
    e.elems[d['elems'][0]['name']] = x
    return re(d, elems=d['elems'][1:] + d['elems'][:1])


def add_point(e, d):
    name = 'pt' + 'x' * max([0] + [len(n) for n in d.get('points', {})])
    e.add_pt(name, Point(7, 8))
    return re(d, points={**d.get('points', {}), name: (7, 8)})


def move_point(e, d):
    pts = dict(d.get('points', {}))
    if not pts:
        raise Disabled()
    name = next(iter(pts))
    pts[name] = pts[name][0] + 1, pts[name][1] + 2
    e.points[name].setxy(*pts[name])
    return re(d, points=pts)


def drop_point(e, d):
    pts = dict(d.get('points', {}))
    if not pts:
        raise Disabled()
    name = next(iter(pts))
    del pts[name], e.points[name]
    return re(d, points=pts)


def add_hole(e, d):
    n = re(SMALL['rect'], pen=d['pen'], name='hole%d' % len(d['inside']))
    e.inside.append(build(n))
    return re(d, inside=d['inside'] + [n])


def drop_hole(e, d):
    if not d['inside']:
        raise Disabled()
    del e.inside[0]
    return re(d, inside=d['inside'][1:])


def new_outside(e, d):
    n = re(single('circle', pen=d['pen']), p1=(-20, -20), p2=(20, 20))
    if d['outside'] == n:
        raise Disabled()
    e.outside = build(n)
    return re(d, outside=n)


COMMON = [xform_inplace, xform_new, style, rename]
EDITS = {'curve': COMMON + [move_anchor, handles, append_cp, drop_cp, open_close], 'rect': COMMON + [corner, resize],
         'ellipse': COMMON + [corner, resize], 'rrect': COMMON + [corner, resize, radius],
         'group': COMMON + [open_close, hide, add_member, drop_member, swap_member, reorder, add_point, move_point, drop_point],
         'holes': [xform_inplace, xform_new, rename, open_close,add_hole, drop_hole, new_outside]}
PART = [xform_inplace, move_anchor, corner, hide, handles]


def description_at(d, path):
    out = []
    at(d, path, lambda x: out.append(x) or x)
    return out[0] if out else None


def edits_of(d, paths, top=True):
    """All (path, name of edit) for the elements at these paths"""
    out = []
    for p in paths:
        dd = description_at(d, p)
        fs = EDITS[dd['kind']] if not p and top else [f for f in PART if f in EDITS[dd['kind']]]
        out += [(p, f.__name__) for f in fs]
    return out


def apply_edit(e, d, path, name):
    """Edit the element at path of e; returns the new description of e"""
    f = globals()[name]
    try:
        x = elem_at(e, path)
    except (IndexError, TypeError):
        raise Disabled()
    new = []

    def change(dd):
        if f not in EDITS[dd['kind']]:
            raise Disabled()
        new.append(1)
        return f(x, dd)
    d = at(d, path, change)
    if not new:
        raise Disabled()
    return d


def wreck(e):
    """Change everything in an element, in place"""
    for cp in getattr(e, 'control_points', ()):
        for v, xy in ((cp.c, (77, 78)), (cp.dl, (5, 6)), (cp.dr, (7, 8))):
            if hasattr(v, 'setxy') and type(v) in (Point, Vector):
                v.setxy(*xy)
        cp.kind = 'wrecked'
    if hasattr(e, 'p1'):
        for v, xy in ((e.p1, (66, 67)), (e.p2, (68, 71))):
            if type(v) is Point:
                v.setxy(*xy)
    if hasattr(e, 'radius'):
        e.radius = 11
    e.xform.rotate(17).translate(100, 200)
    e.penbrush = PenBrush('white', 'black')
    e.closed = True
    e.name += 'w'
    if isinstance(e, Group):
        for p in e.points.values():
            p.setxy(55, 56)
            p.name = 'wrecked'
        e.points['extra'] = Point(1, 1)
        for m in e.elems.values():
            wreck(m)
        e.elems.pop(next(iter(e.elems), None), None)
        e.elems['extra'] = build(single('circle'))
        e.hidden = not e.hidden
    if isinstance(e, ElemWithHoles):
        for m in [e.outside] + e.inside:
            wreck(m)
        e.inside.append(build(single('circle')))
        e.outside = build(single('rect'))


class EditedWorld(object):
    """One element that is edited in place; the queries of a check have to follow"""
    d = None
    ask = None      # function(what, element, description)
    how = 'plain'

    def __init__(self):
        self.e = build(self.d, self.how)
        self.now = self.d
        self.done = []

    def apply(self, op):
        self.now = apply_edit(self.e, self.now, *op)
        self.done.append(op)

    def check(self):
        before = snapshot(self.e)
        type(self).ask('after %s' % (self.done or 'nothing'), self.e, self.now)
        if snapshot(self.e) != before:
            from mc.engine import Violation
            raise Violation('the queries changed the element')

    def canon(self):
        return repr(self.now)


def edited(ctx, ask, depth=None, kinds=None, watch=None, name='edited'):
    """Histories of edits of the models below, asking after every edit"""
    for n, (d, paths) in MODELS.items():
        if kinds and n not in kinds:
            continue
        cls = type('W', (EditedWorld,), dict(d=d, ask=staticmethod(ask)))
        depth = depth or ctx.pick(2, 3)
        ctx.histories('%s %s' % (name, n), cls, edits_of(d, paths), depth, 'all sequences of edits in place, with all queries before and after every edit',
                      watch=watch or depth)


MODELS = {
    'curve': (re(single('curve', 'stretch', pen='line')), [()]),
    'open': (single('open', 'none'), [()]),
    'rect': (single('rect', 'turn'), [()]),
    'ellipse': (single('circle', 'none'), [()]),
    'rrect': (single('rrect', 'shear'), [()]),
    'round': (single('rrect2', 'none'), [()]),
    'holes': (holes('rect', ['ellipse', 'curve'], 'turn'), [(), ('o',), (0,), (1,)]),
    'holes2': (holes('curve', ['rect'], 'none', 'line'), [(), ('o',), (0,)]),
    'group': (group('g', [single('curve', 'turn'), single('rect')], 'move', points={'q': (1, 2)}), [(), (0,), (1,)]),
    'nested': (group('g', [group('s', [group('t', [single('rrect', 'turn')], 'mirror', points={'z': (0, 1)}), single('rect')], 'stretch', hidden=True),
                           holes('rect', ['ellipse'], 'turn')], 'skew'), [(), (0,), (0, 0), (0, 0, 0), (0, 1), (1,), (1, 'o'), (1, 0)]),
    'empty': (group('g', []), [()]),
    'hollow': (group('g', [group('u', [], 'turn'), group('s', [group('t', [], points={'z': (0, 1)}), single('rrect2')], 'move')], 'stretch'), [(), (0,), (1,), (1, 0), (1, 1)]),
}
