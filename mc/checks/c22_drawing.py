"""C22: drawing contexts compose layers, and show what was drawn where it was drawn"""
import itertools
import numpy as np
from PIL import Image
from mc.engine import same, equal, require, raises, fail, Disabled, Violation
from mc.oracle import *
from mc.models import *
from mc import raster
from x7.geom.drawing import DrawingContext
from x7.geom.anim import Builder, Animation, AnimationHolder, AnimationLinear, AnimationLinearFunc, AnimationSinusoidal, \
    AnimationCircular, AnimationGeneric, Morph, MorphMultiStep

SIZE = (52, 44)
LARGE = (110, 96)
VIEWS = {
    'up': (2, 0, 20, 0, -2, 20),
    'down': (2.5, 0, 21, 0, 2.5, 18),
    'turned': (1.6, -1.2, 22, 1.2, 1.6, 15),
    'quarter': (0, -2, 24, -2, 0, 22),
    'wide': (3, 0, 20, 0, -1.5, 21),
    'skewed': (2, 1, 18, 0, -2, 22),
}


def background(kind, size=SIZE):
    w, h = size
    if kind == 'white':
        return Image.new('RGBA', size, 'white')
    if kind == 'clear':
        return Image.new('RGBA', size, (0, 0, 0, 0))
    if kind == 'none':
        return None
    a = np.zeros((h, w, 4), np.uint8)
    a[..., 0] = np.arange(w) * 4
    a[..., 1] = (np.arange(h) * 5)[:, None]
    a[..., 2] = 77
    a[..., 3] = (np.arange(w)[None, :] + np.arange(h)[:, None]) * 2 % 256
    im = Image.fromarray(a, 'RGBA')
    if kind == 'mixed':
        return im
    return im.convert(kind)     # Some mode


def pixels(im):
    return np.asarray(im).astype(float)


def over(top, bottom):
    """Top composed over bottom, both (h, w, 4)"""
    ta, ba = top[..., 3:] / 255, bottom[..., 3:] / 255
    a = ta + ba * (1 - ta)
    c = (top[..., :3] * ta + bottom[..., :3] * ba * (1 - ta)) / np.where(a == 0, 1, a)
    return np.concatenate([c, a * 255], axis=2)


def check_pixels(what, image, want, tol=2.5):
    require(image.mode == 'RGBA', '%s: mode %r', what, image.mode)
    got = pixels(image)
    require(got.shape == want.shape, '%s: image of size %r, expected %r', what, got.shape, want.shape)
    # Colours count as much as they can be seen
    diff = np.abs(got - want)
    diff[..., :3] *= np.minimum(got[..., 3:], want[..., 3:]) / 255
    if diff.max() > tol:
        y, x, _ = np.unravel_index(np.argmax(diff), diff.shape)
        fail('%s: pixel (%d, %d) is %s, expected %s', what, x, y, got[y, x].tolist(), want[y, x].round().tolist())


def check_scene(case, obs):
    d, view, prod = case
    m = VIEWS[view]
    clear = background('clear')
    matrix = Transform(m)
    dc = DrawingContext(clear, matrix, prod=prod)
    build(d).draw(dc)
    cv = raster.Canvas(SIZE)
    raster.draw(cv, d, m, prod)
    cv.compare('drawn', dc.image())
    require(tuple(map(float, matrix.as_6tuple())) == tuple(map(float, m)), 'drawing changed the matrix to %s', matrix.as_6tuple())
    # The same over a picture
    im = background('mixed')
    before = im.tobytes()
    dc2 = DrawingContext(im, Transform(m), prod=prod)
    build(d).draw(dc2)
    check_pixels('composed', dc2.image(), over(pixels(dc.image()), pixels(im)))
    require(im.tobytes() == before, 'the background image changed')
    obs.step(2)
    obs.state(dc.image().tobytes())


def scenes(deep):
    out = []
    plain = ('line', 'thin', 'fill', 'both', 'clear')
    for view in VIEWS:
        uniform = view not in ('wide', 'skewed')
        for leaf in LEAVES:
            for pen in PENS:
                if leaf == 'open' and PENS[pen]().brush:
                    continue
                if pen == 'scaled' and not uniform:
                    continue
                for xf in ('none', 'turn') if pen == 'scaled' else ('none', 'skew', 'mirror') if not deep else XFORMS:
                    if pen == 'scaled' and xf not in ('none', 'turn') or xf == 'far':
                        continue
                    for prod in (True, False):
                        out.append((single(leaf, xf, pen=pen), view, prod))
        s = single
        groups = [group('g', [s('circle', pen='both'), s('rect', pen='fill'), s('open')], 'turn'),
                  group('g', [s('rect', pen='both'), s('ellipse', pen='clear'), s('curve', 'turn', pen='both')], 'mirror'),
                  group('g', [s('rect', pen='line'), group('s', [s('circle', pen='fill')], 'turn'),
                              group('s', [s('rrect2')], hidden=True)], 'move'),
                  group('g', [s('circle', pen='fill')], hidden=True)]
        for pen in ('line', 'fill', 'both', 'thin', 'clear'):
            for o in ('rect', 'circle', 'rrect') + (('curve',) if deep else ()):
                for i in ([], ['rect'], ['ellipse', 'curve'], list(SMALL)):
                    wide = D('holes', 'w', pen, None, outside=holes(o, [], pen=pen)['outside'], inside=[
                        re(big(SMALL[k], n), pen=pen, name='h%d' % n) for n, k in enumerate(i)])
                    for xf in ('none', 'turn') + (('mirror', 'shear') if deep else ()):
                        groups.append(re(wide, xform=XFORMS[xf]))
                        if len(i) > 1 and o == 'rect':      # Several holes as one group
                            groups.append(re(wide, xform=XFORMS[xf], inside=[group('hg', wide['inside'][:2], pen=pen, closed=True)] + wide['inside'][2:]))
        for g in groups:
            for prod in (True, False):
                out.append((g, view, prod))
    return out


def big(d, n):
    """Holes that are large enough to be seen, next to each other"""
    x, y = (-6, 1, 1, -6)[n], (1, 1, -6, -6)[n]
    if d['kind'] == 'curve':
        return re(d, cps=[((x, y + 2), (0, 2), (0, -2)), ((x + 5, y + 2), (0, -2), (0, 2))])
    kw = dict(p1=(x, y), p2=(x + 5, y + 4))
    if 'radius' in d:
        kw['radius'] = 1
    return re(d, **kw)


# -- histories

class Boom(Exception):
    pass


class Fragile(ElemRectangle):
    def paths(self, dc):
        with self.draw_space(dc):
            raise Boom()


def fragile_model():
    g = Group('g', PenBrush('red'), xform=Transform(XFORMS['turn']))
    g.add('a', build(single('rect', 'move')))
    s = Group('s', PenBrush('red'), xform=Transform(XFORMS['stretch']))
    s.add('b', Fragile('b', PenBrush('red'), Point(0, 0), Point(1, 1)))
    g.add('s', s)
    g.add('c', build(single('circle')))
    return g


THINGS = {
    'circle': lambda: build(single('circle', pen='both')),
    'see-through': lambda: ElemRectangle('t', PenBrush(((10, 200, 30, 128), 3), (200, 10, 90, 90)), Point(-4, -2), Point(3, 5)),
    'line': lambda: build(single('open')),
    'clear': lambda: build(single('ellipse', 'move')),
    'group': lambda: build(group('g', [single('rrect', 'turn'), holes('rect', ['rect'], pen='fill', xf='stretch')], 'mirror')),
}


def do(op, dc):
    kind, *args = op
    if kind == 'draw':
        THINGS[args[0]]().draw(dc)
    elif kind == 'cps':
        dc.show_cps = True
        THINGS[args[0]]().draw(dc)
        dc.show_cps = False
    elif kind == 'shadow':
        if len(args) > 1:
            dc.shadow_draw(THINGS[args[0]](), args[1])
        else:
            dc.shadow_draw(THINGS[args[0]]())
    elif kind in ('shadow fails', 'draw fails'):
        try:
            if kind == 'draw fails':
                fragile_model().draw(dc)
            else:
                dc.shadow_draw(fragile_model())
            fail('the failure was swallowed')
        except Boom:
            pass
    elif kind == 'line':
        dc.line(-7, -5, 6, 3, 'magenta', 2)
    elif kind == 'polygon':
        dc.polygon([Point(-3, 4), (1, -5), Point(6, 0)], (0, 90, 190, 140), None)
    elif kind == 'grid':
        dc.grid()
    elif kind == 'compose':
        dc.image()
    elif kind == 'crop':
        dc.image(crop=(-1, -2, 3, 4))


class DrawWorld(object):
    """A context, and contexts that get only what goes into one of its layers"""
    def __init__(self, bg, view, crop=None):
        self.im = background(bg)
        self.before = self.im.tobytes()
        self.view, self.crop = view, crop
        self.dc = DrawingContext(self.im, Transform(VIEWS[view]), **({} if crop is None else dict(crop=crop)))
        self.ops = []

    def apply(self, op):
        if op[0] in ('compose', 'crop') and self.ops and self.ops[-1][0] == op[0]:
            raise Disabled
        self.ops.append(op)
        was = settings(self.dc)
        do(op, self.dc)
        equal('settings of the context after %r' % (op,), settings(self.dc), was)

    def only(self, kinds):
        dc = DrawingContext(background('clear'), Transform(VIEWS[self.view]))
        for op in self.ops:
            if op[0] in kinds:
                do(op, dc)
        return pixels(dc.image())

    def check(self):
        layer = self.only(('draw', 'cps', 'draw fails', 'line', 'polygon', 'grid'))
        shadow = self.only(('shadow', 'shadow fails'))
        bg = pixels(self.im.convert('RGBA'))
        got = self.dc.image(crop=False)
        check_pixels('composed', got, over(layer, over(shadow, bg)), 4)
        require(self.dc.image(crop=False).tobytes() == got.tobytes(), 'composing again gives another image')
        if self.crop:
            part = self.dc.image()
            check_cut(part, got, VIEWS[self.view], self.crop)
            require(self.dc.image().tobytes() == part.tobytes(), 'cropping again gives another image')
        require(self.im.tobytes() == self.before and self.im.size == SIZE, 'the background image changed')
        same('matrix', self.dc.matrix.as_6tuple(), VIEWS[self.view])
        require(self.dc.shadow_color is None, 'the context still draws shadows')

    def canon(self):
        return tuple(self.ops)


# -- shadows

def check_shadow(case, obs):
    thing, color, view = case
    m = VIEWS[view]
    d = single(thing, pen='fill')
    dc = DrawingContext(background('clear', LARGE), Transform(m))
    kw = {} if color is None else dict(color=color)
    was = settings(dc)
    dc.shadow_draw(build(d), **kw)
    equal('settings of the context', settings(dc), was)
    got = pixels(dc.image())
    want = raster.rgba(color or (140, 140, 170, 255))
    lines = [raster.polyline(segs) for segs, _, _ in outlines(d, m)]
    px = raster.Canvas(LARGE).px

    def deep(x, y, dist):
        """Pixels inside of the outline moved by x, y, and how far they are from it"""
        p = px - np.array((x, y))
        return raster.inside(p, lines[0]) & (raster.distance(p, lines[0], True) > dist)
    grid = got.reshape(-1, 4)
    ins = deep(0, 0, 4)
    if ins.any():
        require((np.abs(grid[ins] - np.array(want)).max(1) <= 2).all(), 'shadow below the shape is %s, expected %s', grid[ins][0].tolist(), want)
    moved = deep(4, 3, 4)
    if moved.any():
        require((grid[moved][:, 3] > 100).all() and (np.abs(grid[moved][:, :3] - np.array(want[:3])).max() <= 2),
                'shadow beside the shape is %s, expected about %s', grid[moved][0].tolist(), want)
    lo, hi = lines[0].min(0) - 6, lines[0].max(0) + np.array((44, 38))
    off = (px < lo).any(1) | (px > hi).any(1)
    require((grid[off][:, 3] == 0).all(), 'shadow far off the shape')
    require(dc.matrix.as_6tuple() == Transform(m).as_6tuple(), 'the matrix changed')
    return thing, color, view, int(moved.sum())


def check_shadows(case, obs):
    """Shadows of several shapes, one after the other, all stay"""
    corners, view = case
    m = VIEWS[view]
    inv = Transform(m)
    dc = DrawingContext(background('clear', LARGE), Transform(m))
    areas = []
    for x, y in corners:
        e = ElemCurve('c', PenBrush(None, 'blue'), [ControlPoint(Point(*inv.untransform(*p)), Vector(), Vector(), 'sharp')
                                                    for p in ((x, y), (x + 24, y), (x + 24, y + 20), (x, y + 20))], True)
        dc.shadow_draw(e, color=(90, 20, 30, 255))
        areas.append((x, y))
        got = pixels(dc.image())
        for n, (ax, ay) in enumerate(areas):
            part = got[ay + 8:ay + 12, ax + 8:ax + 16]
            require((np.abs(part - (90, 20, 30, 255)) <= 2).all(), 'shadow %d of %d is %s', n, len(areas), part[0, 0].tolist())
        obs.step()
    obs.state(case)


def check_width(case, obs):
    """Widths that are not whole numbers are rounded"""
    view, width, kind, draft = case
    m = VIEWS[view]
    # Negative widths are in the units of the model
    whole = width if width > 0 else -width * abs(m[0] * m[4] - m[1] * m[3]) ** 0.5
    if width < 0 and (view in ('wide', 'skewed') or abs(whole % 1 - 0.5) < 0.01):
        return case
    images = []
    for w in (width, float(max(1, round(whole))), max(1, round(whole))):
        e = build(single(kind, pen='line'))
        e.penbrush = PenBrush(('red', w))
        dc = DrawingContext(background('clear'), Transform(m), prod=not draft)
        e.draw(dc)
        images.append(dc.image().tobytes())
    require(images[0] == images[1], 'width %s is drawn unlike %s', width, round(whole))
    require(images[1] == images[2], 'width %s as float is drawn unlike the integer', round(whole))
    obs.state(case)


# -- lines, polygons, grid

def check_line(case, obs):
    view, (p, q), width, color = case
    m = VIEWS[view]
    dc = DrawingContext(background('clear'), Transform(m))
    kw = {}
    if color:
        kw['color'] = color
    if width:
        kw['width'] = width
    dc.line(p[0], p[1], q[0], q[1], **kw)
    cv = raster.Canvas(SIZE)
    cv.stroke(np.array([mat_apply(m, p), mat_apply(m, q)]), False, color or 'black', width or 1)
    cv.compare('line', dc.image())
    return tuple(mat_apply(m, p))


def check_polygon(case, obs):
    view, pts, how, fill, outline = case
    m = VIEWS[view]
    dc = DrawingContext(background('clear'), Transform(m))
    given = [Point(*p) if how == 'points' or how == 'mixed' and i % 2 else p for i, p in enumerate(pts)]
    kw = {}
    if fill != 'default':
        kw['fill'] = fill
    if outline != 'default':
        kw['outline'] = outline
    dc.polygon(given, **kw)
    cv = raster.Canvas(SIZE)
    ring = np.array([mat_apply(m, p) for p in pts])
    if fill:
        cv.fill([ring], 'blue' if fill == 'default' else fill)
    if outline:
        cv.stroke(ring, True, 'black' if outline == 'default' else outline, 1)
    cv.compare('polygon', dc.image())
    for g, p in zip(given, pts):
        same('given point', g, p)
    return how, fill


def check_grid(case, obs):
    view, scale = case
    m = mat_mul(VIEWS[view], mat_scale(scale, scale))
    dc = DrawingContext(background('clear'), Transform(m))
    dc.grid()
    cv = raster.Canvas(SIZE)
    for p, q, c in [((1000, 0), (-1000, 0), 'red'), ((0, 1000), (0, -1000), 'red')]:
        cv.stroke(np.array([mat_apply(m, p), mat_apply(m, q)]), False, c, 1)
    for r, c in ((100, 'black'), (50, 'green'), (10, 'blue')):
        cv.stroke(np.array([mat_apply(m, p) for p in ((-r, -r), (-r, r), (r, r), (r, -r))]), True, c, 1)
    cv.compare('grid', dc.image())
    return scale


# -- cropping

def check_cut(got, full, m, box):
    """got is that part of full which box (mapped by m) covers"""
    a, b = mat_apply(m, box[:2]), mat_apply(m, box[2:])
    want = [min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1])]
    # Whole pixels, fractions dropped
    choices = [sorted({int(np.trunc(v - 1e-9)), int(np.trunc(v + 1e-9))}) for v in want]
    data = pixels(full)

    def cut(x1, y1, x2, y2):
        out = np.zeros((y2 - y1, x2 - x1, 4))
        for y in range(max(y1, 0), min(y2, SIZE[1])):
            lo, hi = max(x1, 0), min(x2, SIZE[0])
            if lo < hi:
                out[y - y1, lo - x1:hi - x1] = data[y, lo:hi]
        return out
    arr = pixels(got)
    ok = any(x2 >= x1 and y2 >= y1 and got.size == (x2 - x1, y2 - y1) and (arr == cut(x1, y1, x2, y2)).all()
             for x1 in choices[0] for y1 in choices[1] for x2 in choices[2] for y2 in choices[3])
    require(ok, 'cropped to %r at %r gives an image of size %r that is not that part of the whole', box, want, got.size)


def check_crop(case, obs):
    view, box, how, bg = case
    m = VIEWS[view]
    im = background(bg)
    dc = DrawingContext(im, Transform(m), crop=box if how != 'image' else None)
    for t in THINGS:
        THINGS[t]().draw(dc)
    if how == 'both':       # The crop of the call has precedence
        dc = DrawingContext(im, Transform(m), crop=(0, 0, 1, 1))
        for t in THINGS:
            THINGS[t]().draw(dc)
    full = dc.image(crop=False)
    require(full.size == SIZE, 'image without cropping has size %r', full.size)
    got = dc.image() if how == 'context' else dc.image(crop=box)
    check_cut(got, full, m, box)
    require(dc.image(crop=False).tobytes() == full.tobytes(), 'cropping changed the image')
    return got.size


def check_context(case, obs):
    """Without image or matrix, image modes, mapping helpers"""
    bg, view = case
    im = background(bg)
    before = im.tobytes() if im else None
    m = VIEWS[view] if view else IDENT
    dc = DrawingContext(im, Transform(m) if view else None)
    size = SIZE if im else (1000, 1000)
    blank = dc.image()
    require(blank.size == size and blank.mode == 'RGBA', 'composed image %r %r', blank.size, blank.mode)
    want = pixels(im.convert('RGBA')) if im else np.full((1000, 1000, 4), 255.)
    check_pixels('nothing drawn', blank, want, 1)
    for x, y in [(0, 0), (3, -2), (-1.5, 7)]:
        p = mat_apply(m, (x, y))
        same('scale_pt', dc.scale_pt(x, y), p)
        same('unscale_pt', dc.unscale_pt(*p), (x, y))
    if view not in ('wide', 'skewed'):
        same('stroke_width', dc.stroke_width(1.5), 1.5 * abs(mat_det(m)) ** 0.5)
    given = Transform((1.5, 0.5, 3, -0.5, 2, 1))
    dc.set_matrix(None)
    same('mapping after setting none', dc.scale_pt(3, -2), mat_apply(m, (3, -2)))
    with dc.matrix.push():
        dc.set_matrix(given)
        given.translate(7, 7)
        for x, y in [(0, 0), (3, -2), (-1.5, 7)]:
            same('mapping that was set', dc.scale_pt(x, y), mat_apply((1.5, 0.5, 3, -0.5, 2, 1), (x, y)))
            same('its inverse', dc.unscale_pt(*dc.scale_pt(x, y)), (x, y))
    same('mapping after the block', dc.scale_pt(3, -2), mat_apply(m, (3, -2)))
    THINGS['circle']().draw(dc)
    dc.shadow_draw(THINGS['group']())
    dc.image()
    require(im is None or im.tobytes() == before and im.mode == (bg if bg in ('RGB', 'L', 'P', 'LA') else 'RGBA'), 'the background image changed')
    blank.putpixel((0, 0), (1, 2, 3, 4))
    require(tuple(pixels(dc.image())[0, 0]) != (1, 2, 3, 4), 'writing into the composed image changes the context')
    return bg, view


# -- frames

TIMES = (0, 0.25, 0.5, 1)


def moving():
    """A model and its animations"""
    g = Group('g', PenBrush('red'))
    holder = AnimationHolder()
    pts = [Point(-5, -5), Point(5, -3), Point(-4, 2), Point(3, 5), Point(0, 0), Point(4, 6)]
    g.add('r', ElemRectangle('r', PenBrush(('green', 1), 'yellow'), pts[0], pts[1]))
    g.add('e', ElemEllipse('e', PenBrush(None, 'blue'), pts[2], pts[3]))
    g.add('r2', ElemRectangle('r2', PenBrush(('red', 6)), pts[4], pts[5]))
    holder.add(AnimationLinear(pts[0], Point(0, 1)))
    holder.add(AnimationLinearFunc(pts[1], Point(7, 2), Animation.xy(Animation.ramp_up(), Animation.sin())))
    holder.add(AnimationSinusoidal(pts[2], Point(2, 2), 2, 30))
    holder.add(AnimationCircular(pts[3], 3, 1, 0.5))
    holder.add(AnimationGeneric(pts[4], lambda t, orig, cur: (orig.x + t, orig.y - 2 * t)))
    a = ElemCurve('a', PenBrush('black', 'magenta'), [ControlPoint(Point(-9, -9), Vector(0, 2), Vector(1, -2)), ControlPoint(Point(-3, -8), Vector(1, -2), Vector(0, 2))])
    b = ElemCurve('b', PenBrush('black'), [ControlPoint(Point(2, 4), Vector(0, 2), Vector(1, -2)), ControlPoint(Point(8, 8), Vector(1, -2), Vector(0, 2)),
                                           ControlPoint(Point(5, 9), Vector(1, 0), Vector(-1, 0))])
    c = a.copy()
    c.name = 'c'
    g.add('a', a)
    g.add('c', c)
    holder.add(Morph(g, a, b, Animation.hide_if(lambda t: t, 0.3)))
    holder.add(MorphMultiStep(g, c, [(0.4, b), (1, a)], Animation.ramp_down()))
    return g, holder


class FrameWorld(object):
    def __init__(self, draft, view, bg):
        self.args = draft, view, bg
        self.builder, self.im, self.matrix = self.fresh()
        self.before = self.im.tobytes()
        self.last = None
        self.shown = []

    def fresh(self):
        draft, view, bg = self.args
        model, anims = moving()
        im = background(bg)
        matrix = Transform(VIEWS[view])
        return Builder(im, matrix, model, anims, draft=draft), im, matrix

    def apply(self, t):
        self.last = t
        self.shown.append(t)
        self.frame = self.builder.build_one(t, len(self.shown))

    def check(self):
        if self.last is None:
            return
        want, im, _ = self.fresh()
        # The same, drawn by hand
        want.animations.update(self.last)
        dc = DrawingContext(im, Transform(VIEWS[self.args[1]]), prod=not self.args[0])
        want.model.draw(dc)
        require(self.frame.tobytes() == dc.image().tobytes(), 'frame for %s after %r is not the model at that time', self.last, self.shown[:-1])
        require(self.im.tobytes() == self.before, 'the base image changed')
        same('matrix', self.matrix.as_6tuple(), VIEWS[self.args[1]])

    def canon(self):
        return tuple(self.shown)


def check_handles(case, obs):
    """The overlay of control points: a square at each point, circles at its handles, lines between them"""
    leaf, xf, view, where = case
    d = re(single(leaf, xf), pen=None)
    m = mat_mul(tuple(v * 1.5 for v in VIEWS[view]), mat_mul(XFORMS['move'], d['xform'] or IDENT) if where == 'group' else d['xform'] or IDENT)
    e = build(re(d, pen='thin'))
    e.penbrush = PenBrush(None, None)
    if where == 'group':
        g = Group('g', PenBrush(None, None), xform=Transform(XFORMS['move']))
        g.add(e.name, e)
        e = g
    elif where == 'holes':
        e.xform = Transform()
        e = ElemWithHoles('w', PenBrush(None, None), e, [], xform=Transform(d['xform'] or IDENT))
    dc = DrawingContext(Image.new('RGBA', LARGE, (0, 0, 0, 0)), Transform(tuple(v * 1.5 for v in VIEWS[view])))
    dc.show_cps = True
    before = snapshot(e)
    e.draw(dc)
    equal('element afterwards', snapshot(e), before)
    got = pixels(dc.image())
    if d['kind'] == 'rect':
        cps = [(p,) for p in (d['p1'], (d['p1'][0], d['p2'][1]), d['p2'], (d['p2'][0], d['p1'][1]))]
    elif d['kind'] == 'curve':
        cps = [spec_xy(c) for c in d['cps']]
    else:
        segs = ellipse_segs(d['p1'], d['p2'])
        cps = [(b[0], a[2], b[1]) for a, b in zip(segs[-1:] + segs[:-1], segs)]
    cps = [[mat_apply(m, p) for p in cp] for cp in cps]
    ys, xs = np.mgrid[0:LARGE[1], 0:LARGE[0]] * 1.0
    inside, near = np.zeros(xs.shape, bool), np.zeros(xs.shape, bool)
    for cp in cps:
        c = cp[0]
        box = np.maximum(abs(xs - c[0]), abs(ys - c[1]))
        inside |= box < 4
        near |= box < 7.2
        for h in cp[1:]:
            r = np.hypot(xs - h[0], ys - h[1])
            inside |= r < 4
            near |= r < 7.2
            v = h[0] - c[0], h[1] - c[1]
            k = np.clip(((xs - c[0]) * v[0] + (ys - c[1]) * v[1]) / ((v[0] ** 2 + v[1] ** 2) or 1), 0, 1)
            near |= np.hypot(xs - c[0] - k * v[0], ys - c[1] - k * v[1]) < 2.2
            for i in range(1, 20):
                x, y = (int(round(c[j] + v[j] * i / 20)) for j in (0, 1))
                if 1 <= x < LARGE[0] - 1 and 1 <= y < LARGE[1] - 1:
                    require((got[y - 1:y + 2, x - 1:x + 2, 3] > 0).any(), 'the line from %s to %s is interrupted at %s', c, h, (x, y))
    red, grey = (got == (255, 0, 0, 255)).all(axis=2), (got == (128, 128, 128, 255)).all(axis=2)
    painted = got[..., 3] > 0
    for what, bad in (('not red or grey', painted & ~red & ~grey), ('not painted', inside & ~painted), ('painted', ~near & painted)):
        where = np.argwhere(bad)
        require(len(where) == 0, '%d pixels of the control points are %s, first at %s', len(where), what, where[:1])
    require(not inside.any() or (red.any() and grey.any()), 'no red frames or grey areas')
    obs.step()
    obs.state(case)


def run(ctx):
    ctx.assume('Pixels nearer than 1.6 to the border of something drawn may have either colour; wide lines of open curves may have any kind of end',
               'Pen widths that scale with the transform are only checked where the scale is the same in both directions',
               'Filled areas may be joined with their holes by lines of no width',
               'Text, quick looks and GIF files are not covered')
    ctx.sweep('pictures', scenes(ctx.deep), check_scene, 'elements of every kind x style x internal transform x drawing transform x draft or production: '
              'every pixel against the ideal outlines, then composed over a picture')
    ops = [('draw', t) for t in THINGS] + [('shadow', 'circle'), ('shadow', 'see-through', (90, 20, 30, 200)), ('shadow', 'line'), ('shadow fails',), ('draw fails',), ('line',), ('polygon',),
                                           ('cps', 'group'), ('crop',), ('compose',), ('grid',)]
    some = [('draw', 'circle'), ('draw', 'see-through'), ('draw', 'clear'), ('shadow', 'group'), ('shadow fails',), ('polygon',), ('compose',)]
    for bg, view, alphabet, depth in [('mixed', 'up', ops, ctx.pick(3, 4)), ('RGB', 'turned', ops, 2), ('mixed', 'skewed', some, ctx.pick(4, 5))]:
        ctx.histories('compose over %s, %s' % (bg, view), lambda: DrawWorld(bg, view), alphabet, depth,
                      'every order of drawings, shadows and failures: drawing over shadow over background')
    for crop in ((-3, -2, 6, 7), (0, 0, 1, 1)):
        ctx.histories('cropped to %s' % (crop,), lambda: DrawWorld('mixed', 'up', crop), some, ctx.pick(3, 4), 'drawing on and on in a context that is cropped')
    ctx.sweep('shadows', [(t, c, v) for t in ('circle', 'rect', 'rrect', 'curve', 'ellipse') for c in (None, (90, 20, 30, 255), 'green') for v in VIEWS], check_shadow,
              'shadow lies below and lower right of the shape in its colour')
    spots = [(4, 4), (60, 4), (4, 50), (60, 50)]
    ctx.sweep('several shadows', [(c, v) for k in (2, 3, 4) for c in itertools.permutations(spots, k) for v in VIEWS], check_shadows, 'every order of shadows of shapes apart from each other')
    ctx.sweep('widths', [(v, w, k, d) for v in VIEWS for w in (0.6, 1.2, 1.7, 2.4, 2.6, 3.1, 3.9, 4.45, 5.55, 6.99, 7.01, 0.2, -0.13, -0.97, -1.17, -1.9, -2.3) for k in ('curve', 'open', 'rect', 'rrect', 'ellipse')
                         for d in (True, False)], check_width, 'strokes of fractional width')
    ctx.sweep('handles', [(k, x, v, w) for k in ('curve', 'open', 'loop', 'pair', 'rect', 'rect2', 'ellipse', 'circle') for x in ('none', 'turn', 'stretch', 'skew')
                          for v in ('up', 'turned', 'skewed') for w in ('alone', 'group', 'holes') if (k, w) != ('open', 'holes')], check_handles,
              'overlay of control points and handles of elements without pen')
    lines = [((-3, -2), (5, 4)), ((0, 0), (7, 0)), ((-20, 3), (30, -2)), ((4, -5), (4, 6)), ((1, 1), (2, 2))]
    ctx.sweep('lines', [(v, l, w, c) for v in VIEWS for l in lines for w in (None, 1, 2, 5, 8) for c in (None, 'red', (9, 8, 7, 255))], check_line, 'straight lines')
    polys = [[(-3, -3), (6, -1), (1, 6)], [(-8, -6), (8, -6), (8, 7), (0, 0), (-8, 7)], [(-5, -5), (5, 5), (5, -5), (-5, 5)], [(-50, -40), (60, -45), (5, 60)]]
    ctx.sweep('polygons', [(v, p, h, f, o) for v in VIEWS for p in polys for h in ('points', 'tuples', 'mixed')
                           for f in ('default', None, 'green', (1, 2, 3, 90)) for o in ('default', None, 'red') if f or o], check_polygon, 'polygons')
    ctx.sweep('grids', [(v, s) for v in VIEWS for s in (0.05, 0.1, 0.2, 0.5, 1)], check_grid, 'grids')
    boxes = [(0, 0, 3, 4), (-5, -4, 6, 3), (3, 4, 0, 0), (-2, 5, 4, -3), (-30, -40, 30, 40), (0.3, -1.7, 4.1, 2.2), (2, 2, 2, 5), (20, 20, 30, 30)]
    ctx.sweep('crop', [(v, b, h, bg) for v in VIEWS for b in boxes for h in ('context', 'image', 'both') for bg in ('white', 'mixed')], check_crop,
              'cropped images are that part of the whole')
    ctx.sweep('contexts', [(bg, v) for bg in ('white', 'clear', 'mixed', 'RGB', 'L', 'P', 'LA', 'none') for v in [None] + list(VIEWS)], check_context,
              'backgrounds of every mode, mapping helpers')
    for draft, view, bg in [(True, 'up', 'mixed'), (False, 'turned', 'white')]:
        ctx.histories('frames, %s' % ('draft' if draft else 'production'), lambda: FrameWorld(draft, view, bg), TIMES, ctx.pick(4, 5), 'frames for all orders of times')
