"""C11: transforming elements and drawing them"""
import itertools
from mc.engine import same, equal, require
from mc.oracle import *
from mc.models import *
from mc.edits import edited, wreck


def check_same_fields(what, e, d):
    """Name, style, closedness and hidden state are those of the description"""
    equal(what + ': name', e.name, d['name'])
    check_style(what, e.penbrush, d)
    equal(what + ': closed', bool(e.closed), d.get('closed', d['kind'] != 'group'))
    if d['kind'] == 'group':
        require(isinstance(e, Group), '%s is a %s', what, type(e).__name__)
        equal(what + ': hidden', e.hidden, d.get('hidden', False))
        equal(what + ': members', list(e.elems), [x['name'] for x in d['elems']])
        equal(what + ': points', {n: tuple(p.xy()) for n, p in e.points.items()}, d.get('points', {}))
        for x in d['elems']:
            check_same_fields('%s.%s' % (what, x['name']), e.elems[x['name']], x)
    elif d['kind'] == 'holes':
        require(isinstance(e, ElemWithHoles), '%s is a %s', what, type(e).__name__)
        equal(what + ': holes', len(e.inside), len(d['inside']))
        for x, y in zip([e.outside] + e.inside, [d['outside']] + d['inside']):
            check_same_fields(what + ' part', x, y)


def case(c, obs):
    d, ms, how, view = c
    e = build(d, how)
    before = snapshot(e)
    cur = e
    total = IDENT
    for m in ms:
        xf = Transform()
        xf.push()
        xf.set_matrix(Transform(m))
        was = snapshot(xf)
        cur = cur.transform(xf)
        equal('mapping afterwards', snapshot(xf), was)
        xf.pop()
        same('mapping that was pushed', xf.as_6tuple(), IDENT)
        total = mat_mul(m, total)
        obs.step()
    require(cur is not e, 'transform returned the element itself')
    require(type(cur) is type(e), 'transformed to a %s', type(cur).__name__)
    check_same_fields('transformed', cur, d)
    full = mat_mul(view, total)
    dc = canvas(Transform(view))
    check_paths('transformed', cur.paths(dc), d, full)
    check_control_paths('transformed, control paths', cur.control_paths(dc), d, full)
    check_curves('transformed, as curves', cur.as_curves(), d, total)
    same('drawing transform', dc.matrix.as_6tuple(), view)
    # The original drawn under the mapping
    dc = canvas(Transform(full))
    check_paths('original', e.paths(dc), d, full)
    check_control_paths('original, control paths', e.control_paths(dc), d, full)
    check_curves('original, as curves', e.as_curves(), d, IDENT)
    equal('original afterwards', snapshot(e), before)
    if d['kind'] in ('group', 'holes'):
        flatten(e, d, full, obs)
        equal('original after flattening', snapshot(e), before)
    # They share nothing that could be changed
    now = snapshot(cur)
    wreck(e)
    equal('transformed element after the original was changed', snapshot(cur), now)
    e = build(d, how)
    for m in ms:
        cur = e.transform(Transform(m))
        wreck(cur)
        equal('original after the transformed element was changed', snapshot(e), before)
    obs.state(d, ms, view, how)


def flatten(e, d, m, obs):
    """Flattening into transformed elements gives the same shapes"""
    inner = mat_mul(m, d['xform']) if d['xform'] else m
    xf = Transform(m)
    for root in (None, 'top'):
        parts = list(e.iter_elems_transformed(root, xf))
        same('mapping', xf.as_6tuple(), m)
        base = 'top.' + d['name'] if root else d['name']
        want = [(base + '.' + x['name'], x) for x in d['elems']] if d['kind'] == 'group' else \
               [(base + '.outside.' + d['outside']['name'], d['outside'])] + [(base + '.inside.' + x['name'], x) for x in d['inside']]
        equal('flattened', [p.name for p in parts], [n for n, _ in want])
        for p, (n, x) in zip(parts, want):
            check_paths('flattened ' + n, p.paths(canvas()), x, inner)
            check_style('flattened ' + n, p.penbrush, x)
            equal('flattened %s: closed' % n, bool(p.closed), x.get('closed', x['kind'] != 'group'))
            obs.step()
    parts = list(e.iter_elems_transformed())
    inner = d['xform'] or IDENT
    for p, x in zip(parts, d['elems'] if d['kind'] == 'group' else [d['outside']] + d['inside']):
        check_paths('flattened without mapping', p.paths(canvas()), x, inner)


def by_own(c, obs):
    """An element transformed by its own transform object, or by that of an element around it"""
    d, = c
    e = build(d)
    before = snapshot(e)
    new = e.transform(e.xform)
    equal('element afterwards', snapshot(e), before)
    check_paths('transformed by its own transform', new.paths(canvas()), d, d['xform'] or IDENT)
    dc = canvas()
    dc.matrix = e.xform
    equal('element afterwards', snapshot(e), before)
    new = new.transform(new.xform.copy())
    obs.step(2)
    obs.state(d)


def ask(what, e, d):
    m, view = XFORMS['skew'], (2, 0, 40, 0, -2, 30)
    new = e.transform(Transform(m))
    check_same_fields(what + ', transformed', new, d)
    check_paths(what + ', transformed', new.paths(canvas(Transform(view))), d, mat_mul(view, m))
    check_paths(what, e.paths(canvas(Transform(view))), d, view)
    check_control_paths(what, e.control_paths(canvas(Transform(view))), d, view)
    check_curves(what, e.as_curves(), d, IDENT)
    check_curves(what + ', transformed', new.as_curves(), d, m)


def run(ctx):
    ctx.assume('mappings are invertible; the parts of an element with holes share its style')
    maps = [x or IDENT for x in XFORMS.values()]
    views = [IDENT, (2, 0, 40, 0, -2, 30)]
    cat = catalogue(ctx.deep)
    cases = [(d, (m,), how, views[1]) for d in cat for m in maps + MORE_XFORMS for how in (('plain', 'live') if ctx.deep else ('plain',))]
    cases += [(d, (), 'plain', v) for d in [] for v in views]
    cases = [c for c in cases if c[1]]
    pairs = [d for d in cat if d['kind'] not in ('group', 'holes')][::ctx.pick(3, 1)] + nestings(False)
    few = maps[2:8]
    cases += [(d, (a, b), 'live', views[0]) for d in pairs for a in few for b in few[::ctx.pick(2, 1)]]
    cases += [(d, (a, b, c), 'plain', views[1]) for d in pairs[::ctx.pick(4, 2)] for a in few[:4] for b in few[:4] for c in few[:4]]
    ctx.sweep('transform', cases, case, 'every model of the catalogue under every mapping, pairs and triples of mappings')
    ctx.sweep('own', [(d,) for d in cat], by_own, 'every model transformed by its own transform object')
    edited(ctx, ask)
