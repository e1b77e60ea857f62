"""C12: drawing, measuring, traversing never change model or transform"""
import itertools
from PIL import Image
from mc.engine import same, equal, require, Disabled, Violation
from mc.oracle import *
from mc.models import *
from mc.edits import edited
from x7.geom.drawing import DrawingContext

VIEW = (2, 0.5, 10, 0.25, -2, 20)
OUTER = (1, 0, 3, 0.5, 2, -1)
SIZE = (32, 28)


class Boom(Exception):
    pass


def new_dc(matrix, **kw):
    dc = DrawingContext(Image.new('RGBA', SIZE, 'white'), matrix, **kw)
    dc.points_per_curve = 7
    return dc


def new_matrix():
    m = Transform(OUTER)
    m.push()
    m.set_matrix(Transform(VIEW))
    return m


def numbers(v):
    """Results in comparable form"""
    if isinstance(v, BBox):
        return 'B', tuple(map(float, (v.xl, v.yl, v.xh, v.yh)))
    return snapshot(v)


def paths_result(paths):
    return tuple((repr(p.penbrush), p.closed, tuple(path_points(p))) for p in paths)


def draw_op(**kw):
    def op(e, dc):
        d = new_dc(dc.matrix, prod=kw.get('prod', True))
        d.show_cps = kw.get('cps', False)
        d.debug = kw.get('debug', True)
        draw, layer, was = d.draw, d.layer, settings(d)
        if kw.get('shadow'):
            d.shadow_draw(e)
        e.draw(d)
        require(d.draw is draw and d.layer is layer and d.matrix is dc.matrix and d.shadow_color is None, 'drawing changed the drawing context')
        equal('settings of the context', settings(d), was)
        return d.image().tobytes()
    return op


def listing(e, dc):
    return [(n, snapshot(x), tuple(map(float, m.as_6tuple())) if m else None) for n, x, m in e.iter_elems('top', dc.matrix)]


def partial(n, flat=False):
    def op(e, dc):
        it = e.iter_elems_transformed('top', dc.matrix) if flat and hasattr(e, 'iter_elems_transformed') else e.iter_elems('top', dc.matrix)
        out = []
        for _ in range(n):
            x = next(it, None)
            if x is None:
                break
            out.append(snapshot(x if isinstance(x, Elem) else x[:2]))
        it.close()
        return out
    return op


def half_way(e, dc):
    """Other operations while a traversal is suspended"""
    it = e.iter_elems(None, dc.matrix)
    out = []
    while True:
        x = next(it, None)
        if x is None:
            return out
        p = paths_result(e.paths(dc))
        list(e.iter_elems(None, dc.matrix))
        out.append((x[0], tuple(map(float, x[2].as_6tuple())) if x[2] else None, p))


def lookups(e, dc):
    if not hasattr(e, 'lookup'):
        return None
    out = []
    for n, x, _ in e.iter_elems('top'):
        got = e.lookup(n.split('.', 2)[2])
        require(got is x, 'lookup of %r', n)
        out.append(n)
    for bad in ('nothing', 'outside.nothing', 'inside.nothing'):
        try:
            e.lookup(bad)
            raise Violation('lookup of %r succeeds' % bad)
        except (KeyError, ValueError):
            pass
    return out


OPS = {
    'paths': lambda e, dc: paths_result(e.paths(dc)),
    'control_paths': lambda e, dc: tuple(snapshot(p.points) for p in e.control_paths(dc)),
    'draw': draw_op(),
    'draw draft': draw_op(prod=False, cps=True),
    'draw shadow': draw_op(shadow=True, debug=False),
    'bbox': lambda e, dc: numbers(e.bbox()),
    'bbox_int': lambda e, dc: numbers(e.bbox_int()),
    'center': lambda e, dc: numbers(e.center()),
    'as_curves': lambda e, dc: snapshot(e.as_curves()),
    'dump': lambda e, dc: e.dump(DumpContext()).output(),
    'dump plain': lambda e, dc: e.dump(DumpContext(use_vars=False)).output(just_lines=True),
    'display': lambda e, dc: e.display(),
    'list': listing,
    'list 1': partial(1),
    'list 2': partial(2),
    'flatten': lambda e, dc: snapshot(list(e.iter_elems_transformed('top', dc.matrix))) if hasattr(e, 'iter_elems_transformed') else None,
    'flatten 1': partial(1, True),
    'flatten here': lambda e, dc: snapshot(list(e.iter_elems_transformed())) if hasattr(e, 'iter_elems_transformed') else None,
    'half way': half_way,
    'transform': lambda e, dc: snapshot(e.transform(dc.matrix)),
    'copy': lambda e, dc: snapshot(e.copy()),
    'text': lambda e, dc: (str(e), repr(e)),
    'equal': lambda e, dc: (e == e.copy(), e == 1, e == e, e.transform(Transform()) == e),
    'lookup': lookups,
    'offset': lambda e, dc: snapshot([c.offset(0.5) for c in e.as_curves() if len(c.control_points) > 1]),
    'offset own': lambda e, dc: snapshot(e.offset(-0.25)) if isinstance(e, ElemCurve) else None,
    'points': lambda e, dc: snapshot(list(e.as_digi_points())),
    'draw space': lambda e, dc: draw_space(e, dc),
}


def draw_space(e, dc):
    with e.draw_space(dc) as m:
        return tuple(map(float, m.as_6tuple()))


def outcome(op, e, dc):
    """Result of an operation, or the kind of exception"""
    try:
        return 'ok', OPS[op](e, dc)
    except Violation:
        raise
    except Boom:
        return 'boom', None
    except Exception as err:
        return 'raised', type(err).__name__


SETTINGS = settings(new_dc(Transform()))


def check_untouched(what, e, before, dc, matrix, stack):
    equal('settings of the context', settings(dc), SETTINGS)
    if snapshot(e) != before:
        raise Violation('%s changed the model: %s' % (what, first_difference(snapshot(e), before)))
    require(dc.matrix is matrix, '%s replaced the drawing transform', what)
    equal('saved transforms after %s' % what, saved_states(matrix), stack)
    same('drawing transform after %s' % what, matrix.as_6tuple(), VIEW, 1e-12)


def first_difference(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first_difference(x, y)
    return '%.150r was %.150r' % (a, b)


class World(object):
    d = None
    baseline = None

    def __init__(self):
        self.e = build(self.d, 'live')
        self.matrix = new_matrix()
        self.dc = new_dc(self.matrix)
        self.before = snapshot(self.e)
        self.done = []
        cls = type(self)
        if cls.baseline is None:
            cls.baseline = {}
            for op in OPS:
                cls.baseline[op] = outcome(op, build(self.d, 'live'), new_dc(new_matrix()))

    def apply(self, op):
        res = outcome(op, self.e, self.dc)
        self.done.append(op)
        check_untouched(op, self.e, self.before, self.dc, self.matrix, 1)
        if res != self.baseline[op]:
            raise Violation('%s gives another result after %s: %s' % (op, self.done[:-1], first_difference(res, self.baseline[op])))

    def check(self):
        self.matrix.pop()
        same('transform saved before', self.matrix.as_6tuple(), OUTER)

    def canon(self):
        return tuple(self.done)


def every_elem(e):
    yield e
    for x in (e.elems.values() if isinstance(e, Group) else [e.outside] + e.inside if isinstance(e, ElemWithHoles) else ()):
        yield from every_elem(x)


METHODS = ['paths', 'control_paths', 'bbox', 'as_curves', 'dump', 'display', 'copy', 'transform', 'iter_elems', 'as_digi_points',
           'make_control_points', 'draw']


def boom(*args, **kwargs):
    raise Boom()


def boom_at(inner, k, count):
    def call(*args, **kwargs):
        count[0] += 1
        if count[0] == k:
            raise Boom()
        return inner(*args, **kwargs)
    return call


class BadDraw(object):
    """Passes calls on to the real thing, and fails at the k-th"""
    def __init__(self, inner, k, count):
        self.inner, self.k, self.count = inner, k, count

    def __getattr__(self, name):
        return boom_at(getattr(self.inner, name), self.k, self.count)


def member_fails(case, obs):
    """A member (or one of its control points) fails in one of its methods"""
    d, op, pos, method = case
    e = build(d)
    elems = list(every_elem(e))
    victim = elems[pos]
    if method.startswith('cp'):
        cps = getattr(victim, 'control_points', None)
        if not cps:
            return
        victim = cps[int(method[2:]) % len(cps)]
        method = 'transform'
    before = snapshot(e)
    matrix = new_matrix()
    dc = new_dc(matrix)
    setattr(victim, method, boom)
    res = outcome(op, e, dc)
    check_untouched('failing ' + op, e, before, dc, matrix, 1)
    res2 = outcome(op, e, dc)
    equal('outcome of %s failing again' % op, res2[0], res[0])
    delattr(victim, method)
    good = outcome(op, e, dc)
    want = outcome(op, build(d), new_dc(new_matrix()))
    require(good == want, '%s after a failure: %s', op, first_difference(good, want))
    check_untouched(op + ' after a failure', e, before, dc, matrix, 1)
    obs.step(3)
    obs.state(d, op, pos, method, res[0])


def mapping_fails(case, obs):
    """The k-th mapping of points, or the k-th call that draws, fails, for every k"""
    d, op, where = case
    e = build(d)
    before = snapshot(e)
    for k in range(1, 200):
        matrix = new_matrix()
        dc = new_dc(matrix)
        count = [0]
        if where == 'map':
            matrix.transform_np_pts = boom_at(matrix.transform_np_pts, k, count)
            res = outcome(op, e, dc)
        else:
            draw = dc.draw = BadDraw(dc.draw, k, count)
            dc.show_cps = op == 'cps'
            try:
                if op == 'shadow':
                    dc.alloc_shadow()
                    e.paths = boom_at(e.paths, k, count)
                    dc.shadow_draw(e)
                else:
                    e.draw(dc)
                res = 'ok', None
            except Boom:
                res = 'boom', None
            finally:
                e.__dict__.pop('paths', None)
            require(dc.draw is draw, 'drawing left another drawing target behind')
            equal('shadow colour', dc.shadow_color, None)
            equal('showing control points', dc.show_cps, op == 'cps')
            dc.show_cps = False
        check_untouched('failing ' + op, e, before, dc, matrix, 1)
        obs.step()
        obs.state(d, op, where, k, res[0])
        if count[0] < k:
            break
    return None


def traversal(case, obs):
    """Pairs of element and transform of the groups around it, step by step, collected, and abandoned"""
    d, root, mat, how = case
    e = build(d)
    before = snapshot(e)
    m = Transform(mat) if mat else None
    want = []
    for path, x, inner in leaves(d, mat or IDENT):
        want.append(('.'.join(((root,) if root else ()) + path), x['name'], inner))
    if d['kind'] in ('group', 'holes'):
        it = e.iter_elems(root, m) if root or m else e.iter_elems()
    else:
        it = e.iter_elems(root or 'unknown', m)
        want = [((root or 'unknown') + '.' + d['name'], d['name'], mat)]
    seen = []
    if how == 'collected':
        seen = list(it)
    elif how == 'steps':
        for n, x, xf in it:
            i = len(seen)
            require(i < len(want), 'more elements than expected: %r', n)
            if want[i][2]:
                same('transform of %s' % n, xf.as_6tuple(), want[i][2])
            if m:
                same('mapping given, during the traversal', m.as_6tuple(), mat)
            equal('name', n, want[i][0])
            seen.append((n, x, xf))
    else:
        for _ in range(how):
            x = next(it, None)
            if x:
                seen.append(x)
        # never finished
        if m:
            same('mapping given, traversal abandoned', m.as_6tuple(), mat)
        equal('model afterwards', snapshot(e), before)
        return
    equal('elements listed', [n for n, _, _ in seen], [n for n, _, _ in want])
    for (n, x, xf), (_, name, inner) in zip(seen, want):
        equal('name of ' + n, x.name, name)
        if inner is None:
            equal('transform of ' + n, xf, None)
        else:
            same('transform of ' + n, xf.as_6tuple(), inner)
            require(xf is not m or d['kind'] not in ('group', 'holes'), 'the mapping given is handed out itself')
    if m:
        same('mapping given', m.as_6tuple(), mat)
        equal('stack of mapping given', saved_states(m), 0)
    equal('model afterwards', snapshot(e), before)
    obs.state(d, root, mat, how)


def visible_only(d):
    if d['kind'] != 'group':
        return d
    return re(d, elems=[] if d.get('hidden') else [visible_only(x) for x in d['elems']], hidden=False)


def hidden(case, obs):
    d, names = case
    d = hide(d, names)
    ops = ('draw', 'draw draft', 'draw shadow')
    for op in ops:
        a = OPS[op](build(d), new_dc(new_matrix()))
        b = OPS[op](build(visible_only(d)), new_dc(new_matrix()))
        require(a == b, '%s: hidden groups are visible', op)
        obs.step()
    dc = new_dc(new_matrix())
    equal('paths', paths_result(build(d).paths(dc)), paths_result(build(visible_only(d)).paths(dc)))
    equal('control paths', len(build(d).control_paths(dc)), len(build(visible_only(d)).control_paths(dc)))
    obs.state(d)


def group_names(d):
    return [d['name']] + [n for e in d['elems'] for n in group_names(e)] if d['kind'] == 'group' else []


def hide(d, names):
    if d['kind'] != 'group':
        return d
    return re(d, hidden=d['name'] in names, elems=[hide(e, names) for e in d['elems']])


def ask(what, e, d):
    for op in OPS:
        want = outcome(op, build(d), new_dc(new_matrix()))
        for n in (1, 2):
            matrix = new_matrix()
            got = outcome(op, e, new_dc(matrix))
            if got != want and not close(got, want):
                raise Violation('%s, %s, time %d: %s' % (what, op, n, first_difference(got, want)))
            same('drawing transform', matrix.as_6tuple(), VIEW, 1e-12)


def close(a, b):
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * max(1, abs(a))
    return a == b


def unnamed(d):
    """The same without name, and the first of its members as well"""
    d = re(d, name='')
    if d['kind'] == 'group':
        d = re(d, elems=[unnamed(e) for e in d['elems'][:1]] + d['elems'][1:])
    elif d['kind'] == 'holes':
        d = re(d, outside=re(d['outside'], name=''))
    return d


def run(ctx):
    cat = catalogue(False)
    nest = nestings(False)
    singles = [single('curve', 'turn'), single('open', 'skew'), single('rect', 'turn'), single('rrect', 'stretch'), single('ellipse', 'shear'),
               holes('rect', ['ellipse', 'curve'], 'turn'), holes('curve', [], 'skew', 'fill'), holes('circle', ['rect'], 'mirror', 'line')]
    models = singles + nest
    roots = (None, 'top', 'a.b')
    mats = (None, OUTER)
    trav = cat if ctx.deep else models
    ctx.sweep('traversal', [(d, r, m, how) for d in trav for r in roots for m in mats for how in ('collected', 'steps', 0, 1, 2, 3, 4)],
              traversal, 'every model listed step by step, collected, and abandoned at every position')
    ctx.sweep('hidden', [(d, names) for d in nest for k in range(3) for names in itertools.combinations(sorted(set(group_names(d))), k)], hidden,
              'every choice of up to two hidden groups')
    faults = []
    for d in nest[2:] + singles[5:] + singles[:1]:
        n = len(list(every_elem(build(d))))
        for op in OPS:
            for pos in range(n):
                faults += [(d, op, pos, m) for m in METHODS + ['cp0', 'cp1']]
    ctx.sweep('member fails', faults, member_fails, 'a failure injected into every method of every member')
    ctx.sweep('mapping fails', [(d, op, 'map') for d in models for op in OPS] + [(d, op, 'draw') for d in models for op in ('draw', 'cps', 'shadow')],
              mapping_fails, 'a failure injected at every call of the point mapping and of the drawing target')
    for i, d in enumerate(models + [unnamed(d) for d in nest[2:] + singles[:1] + singles[4:6]]):
        ctx.histories('model %d %s' % (i, d['kind']), type('W', (World,), dict(d=d, baseline=None)), OPS, ctx.pick(2, 3),
                      'all sequences of reading operations', watch=0)
    edited(ctx, ask)
