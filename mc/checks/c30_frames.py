"""C30: frames prepared for output keep size, order, crop and hard transparency"""
import itertools
from PIL import Image
from mc.engine import same, equal, require, raises, show, Disabled, Violation
from mc.oracle import *
from mc.models import *
from x7.geom.anim import (Animation, AnimationLinear, AnimationSinusoidal, AnimationCircular, AnimationLinearFunc, AnimationGeneric, AnimationHolder,
                          Morph, Builder, composed, getalpha)
from x7.geom.anim import single as one_color
from x7.geom.drawing import DrawingContext, bbox_max
from x7.geom.model import GroupBuilder

PIXELS = {'o': (255, 0, 0, 255), 'b': (0, 0, 254, 255), 't': (10, 200, 30, 128), 'f': (250, 250, 10, 1), '-': (0, 0, 0, 0), 'c': (40, 50, 60, 0)}


def image(rows):
    """Image from rows of letters"""
    im = Image.new('RGBA', (len(rows[0]), len(rows)))
    im.putdata([PIXELS[c] for r in rows for c in r])
    return im


def pixels(im):
    w, h = im.size
    return [[im.getpixel((x, y)) for x in range(w)] for y in range(h)]


def state(im):
    return im.mode, im.size, im.tobytes()


def model_builder(base=None, animations=None):
    return Builder(base or Image.new('RGBA', (4, 4), 'white'), Transform(), Group('g', PenBrush('red')), animations)


# -- bounding boxes

def visible_box(images):
    pts = [(x, y) for im in images for y, row in enumerate(pixels(im)) for x, p in enumerate(row) if p[3]]
    if not pts:
        return None
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return min(xs), min(ys), max(xs) + 1, max(ys) + 1


def check_bbox(case, obs):
    frames, how = case
    images = [image(f) for f in frames]
    before = [state(im) for im in images]
    b = model_builder()
    if how == 'own':
        b.images = images
        got = b.max_bbox()
    elif how == 'empty list':
        b.images = images
        got = b.max_bbox([])
    else:
        b.images = [image(['o'])]
        got = b.max_bbox(images)
    want = visible_box(images)
    require((got is None and want is None) or (got is not None and want is not None and tuple(got) == want), 'max_bbox of %r is %r, expected %r', frames, got, want)
    equal('images after measuring', [state(im) for im in images], before)
    obs.state(want)
    return want


def check_bbox_max(case, obs):
    a, = case
    for b in BOXES:
        got = bbox_max(a, b)
        require(isinstance(got, tuple), 'bbox_max gives %r', got)
        equal('bbox_max(%r, %r)' % (a, b), got, (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3])))
        obs.state(a, b)


BOXES = [(x, y, x + w, y + h) for x in (0, 1, -3) for y in (0, 2) for w in (1, 4, 0.5) for h in (1, 3)]


# -- scaling and cropping

def block_image(blocks, size):
    """Blocks of size x size pixels"""
    rows = [''.join(c * size for c in r) for r in blocks for _ in range(size)]
    return image(rows)


def crop_of(im, box):
    """Crop by pixels, outside is clear"""
    w, h = im.size
    out = Image.new('RGBA', (box[2] - box[0], box[3] - box[1]), (0, 0, 0, 0))
    for y in range(box[1], box[3]):
        for x in range(box[0], box[2]):
            if 0 <= x < w and 0 <= y < h:
                out.putpixel((x - box[0], y - box[1]), im.getpixel((x, y)))
    return out


def close_color(a, b):
    return all(abs(x - y) <= 2 for x, y in zip(a, b))


def check_resized(what, im, blocks, bs, scale):
    """Every block keeps its colour, away from its edges; transparency is hard"""
    n = bs // scale
    equal('%s: size' % what, im.size, (len(blocks[0]) * n, len(blocks) * n))
    equal('%s: mode' % what, im.mode, 'RGBA')
    px = pixels(im)
    soft = {p[3] for row in px for p in row} - {0, 255}
    require(not soft, '%s: translucent pixels with alpha %s', what, sorted(soft)[:5])
    w, h = im.size
    for by, row in enumerate(blocks):
        for bx, c in enumerate(row):
            want = PIXELS[c]
            for y in range(by * n, by * n + n):
                for x in range(bx * n, bx * n + n):
                    # Two pixels from other blocks (the edge of the image is no other block)
                    if any(0 <= x + dx < w and 0 <= y + dy < h and blocks[(y + dy) // n][(x + dx) // n] != c
                           for dx in (-2, 0, 2) for dy in (-2, 0, 2)):
                        continue
                    got = px[y][x]
                    if want[3] == 255:
                        require(got[3] == 255 and close_color(got, want), '%s: %s pixel at %s is %s', what, want, (x, y), got)
                    else:
                        require(got[3] == 0, '%s: clear pixel at %s is %s', what, (x, y), got)


def check_scaled(case, obs):
    frames, scale, how = case
    bs = 4 * scale if scale > 1 else 3
    images = [block_image(f, bs) for f in frames]
    before = [state(im) for im in images]
    b = model_builder()
    if how == 'own':
        b.images = list(images)
        out = b.scaled(scale)
    elif how == 'given':
        b.images = [image(['b'])]
        out = b.scaled(scale, images=images)
    else:
        # Crop away the first row and column of blocks
        b.images = list(images)
        w, h = images[0].size
        out = b.scaled(scale, bbox=(bs, bs, w, h))
        frames = [[r[1:] for r in f[1:]] for f in frames]
        equal('own images', [id(im) for im in b.images], [id(im) for im in images])
    equal('number of frames', len(out), len(frames))
    for k, (im, blocks) in enumerate(zip(out, frames)):
        if scale == 1:
            equal('frame %d at scale 1' % k, state(im), state(block_image(blocks, bs)))
        else:
            check_resized('frame %d' % k, im, blocks, bs, scale)
    equal('images after scaling', [state(im) for im in images], before)
    obs.state(frames, scale, how)
    return len(out)


def check_crop(case, obs):
    """Cropping at any place, in order"""
    box, scale = case
    w, h = 6, 5
    images = [image([''.join('ob-t'[(x * 3 + y * 5 + k) % 4] for x in range(w)) for y in range(h)]) for k in range(3)]
    b = model_builder()
    b.images = images
    out = b.scaled(scale, box)
    equal('number of frames', len(out), 3)
    for k, im in enumerate(out):
        want = crop_of(images[k], box)
        if scale == 1:
            equal('crop %r of frame %d' % (box, k), pixels(im), pixels(want))
        else:
            equal('size of crop %r' % (box,), im.size, ((box[2] - box[0]) // scale, (box[3] - box[1]) // scale))
            require({p[3] for row in pixels(im) for p in row} <= {0, 255}, 'translucent pixels')
    obs.state(box, scale)


def check_resize(case, obs):
    """Any size, up and down, for images of any pixels"""
    rows, size = case
    im = image(rows)
    before = state(im)
    out = Builder.resize_for_gif(im, *size)
    equal('size', out.size, size)
    equal('mode', out.mode, 'RGBA')
    alphas = {p[3] for row in pixels(out) for p in row}
    require(alphas <= {0, 255}, 'resized %r to %r: translucent pixels %s', rows, size, sorted(alphas))
    colors = {PIXELS[c] for r in rows for c in r}
    if len(colors) == 1:
        c = colors.pop()
        for row in pixels(out):
            for p in row:
                require(p[3] == (255 if c[3] == 255 else 0), 'uniform %r becomes %r', c, p)
                require(c[3] < 255 or close_color(p, c), 'uniform %r becomes %r', c, p)
    if all(PIXELS[c][3] == 255 for r in rows for c in r):
        require(alphas == {255}, 'opaque image becomes transparent')
    if all(PIXELS[c][3] == 0 for r in rows for c in r):
        require(alphas == {0}, 'clear image becomes opaque')
    equal('image after resizing', state(im), before)
    # Without transparency only the size changes
    for mode in ('RGB', 'L'):
        equal('size', Builder.resize_for_gif(im.convert(mode), *size).size, size)
        equal('mode', Builder.resize_for_gif(im.convert(mode), *size).mode, mode)
    obs.state(rows, size)


# -- composing

COLORS = {'white': (255, 255, 255), 'black': (0, 0, 0), 'red': (255, 0, 0), '#102030': (16, 32, 48), None: (255, 255, 255)}


def check_composed(case, obs):
    rows, color = case
    im = image(rows)
    before = state(im)
    out = composed(im) if color is None else composed(im, color)
    equal('size', out.size, im.size)
    equal('mode', out.mode, 'RGBA')
    under = COLORS[color]
    for y, row in enumerate(pixels(im)):
        for x, p in enumerate(row):
            got = out.getpixel((x, y))
            want = tuple(round((a * p[3] + u * (255 - p[3])) / 255) for a, u in zip(p, under)) + (255,)
            if p[3] in (0, 255):
                equal('%s over %s' % (p, color), got, want)
            else:
                require(all(abs(a - b) <= 1 for a, b in zip(got, want)), '%s over %s: %s, expected %s', p, color, got, want)
    equal('image after composing', state(im), before)
    require(out is not im, 'composing gives the image itself')
    out.paste((1, 2, 3, 4), (0, 0) + out.size)
    equal('image after drawing on the composed one', state(im), before)
    plain = one_color(im) if color is None else one_color(im, color)
    equal('single colour', (plain.size, plain.mode, plain.getcolors()), (im.size, 'RGBA', [(im.size[0] * im.size[1], COLORS[color] + (255,) if color else (0, 0, 0, 255))]))
    a = getalpha(im)
    equal('alpha', (a.mode, a.size, list(a.getdata())), ('L', im.size, [p[3] for row in pixels(im) for p in row]))
    obs.state(rows, color)


# -- building frames

def scene(kinds):
    """Model and its animations, all new"""
    b = GroupBuilder('g', __import__('x7.geom.colors', fromlist=['PensByShape']).PensByShape())
    holder = AnimationHolder()
    pts = [b.point('p%d' % k, 4 + 5 * k, 5 + 3 * k) for k in range(3)]
    b.curve('c', [ControlPoint(pts[0], Vector(0, 4), Vector(0, -4)), ControlPoint(pts[1], Vector(0, -4), Vector(0, 4))], PenBrush(('red', 1), 'yellow'))
    b.curve('o', [ControlPoint(pts[1], Vector(), Vector()), ControlPoint(pts[2], Vector(), Vector())], PenBrush(('blue', 2)), closed=False)
    b.rect('r', Point(1, 14), Point(6, 18), PenBrush(None, (0, 200, 0, 128)))
    m = b.curve('m', [ControlPoint(Point(15, 15), Vector(), Vector(), 'sharp'), ControlPoint(Point(19, 15), Vector(), Vector(), 'sharp'),
                      ControlPoint(Point(17, 19), Vector(), Vector(), 'sharp')], PenBrush(None, 'purple'))
    for k in kinds:
        if k == 'linear':
            holder.add(AnimationLinear(pts[0], Point(12, 2)))
        elif k == 'sinus':
            holder.add(AnimationSinusoidal(pts[1], Point(2, 12)))
        elif k == 'circle':
            holder.add(AnimationCircular(pts[2], 4, 2))
        elif k == 'ramp':
            holder.add(AnimationLinearFunc(pts[0], Point(0, 20), Animation.ramp_up(0.25, 0.6)))
        elif k == 'morph':
            t = ElemCurve('t', PenBrush('red'), [ControlPoint(Point(*p), Vector(), Vector(), 'sharp') for p in ((2, 2), (18, 3), (9, 9))])
            holder.add(Morph(b.the_group, m, t, Animation.hide_if(Animation.interpolate([(0, 0), (0.5, 1), (0.74, 0), (0.75, -1), (1, -1)]))))
    return b.the_group, holder


MATRIX = {'plain': None, 'flip': (1, 0, 0, 0, -1, 20), 'half': (0.5, 0, 4, 0, 0.5, 4)}


def matrix_of(which):
    return Transform(MATRIX[which]) if MATRIX[which] else Transform()


def base_of(which):
    if which == 'white':
        return Image.new('RGBA', (20, 20), 'white')
    if which == 'clear':
        return Image.new('RGBA', (20, 20), (0, 0, 0, 0))
    im = Image.new('RGBA', (20, 20), (200, 220, 240, 255))
    im.paste((255, 128, 0, 255), (0, 0, 10, 4))
    return im


FRAMES = {}


def expected_frame(kinds, base, matrix, draft, t):
    """The model at time t on the base, built from scratch"""
    key = kinds, base, matrix, draft, t
    if key not in FRAMES:
        model, holder = scene(kinds)
        holder.update(t)
        dc = DrawingContext(base_of(base), matrix_of(matrix), prod=not draft)
        model.draw(dc)
        FRAMES[key] = dc.image().tobytes()
    return FRAMES[key]


class World(object):
    def __init__(self, kinds, base, matrix, draft):
        self.setting = kinds, base, matrix, draft
        model, holder = scene(kinds)
        self.base = base_of(base)
        self.matrix = matrix_of(matrix)
        self.before = self.base.tobytes()
        self.builder = Builder(self.base, self.matrix, model, holder if kinds else None, draft=draft)
        self.want = []
        self.earlier = []
        equal('images before building', list(self.builder.images), [])

    def compare(self, images, times):
        equal('number of frames', len(images), len(times))
        for k, (im, t) in enumerate(zip(images, times)):
            equal('size of frame %d' % k, (im.size, im.mode), ((20, 20), 'RGBA'))
            require(im.tobytes() == expected_frame(*self.setting, t), 'frame %d does not show the model at time %r', k, t)

    def apply(self, op):
        what, *args = op
        b = self.builder
        if what == 'all':
            n, = args
            self.want = [k / n for k in range(n)]
            out = b.build_all(n)
            self.compare(out, self.want)
            self.earlier.append((out, self.want))
        elif what == 'one':
            im = b.build_one(*args)
            self.compare([im], [args[0] if args else 0])
        elif what == 'box':
            if not self.want:
                raise Disabled()
            got = b.max_bbox()
            want = visible_box(list(b.images))
            require(got == want, 'max_bbox is %r, expected %r', got, want)
        elif what == 'scale':
            scale, box = args
            if not self.want:
                raise Disabled()
            out = b.scaled(scale, box)
            equal('number of scaled frames', len(out), len(self.want))
            w, h = (box[2] - box[0], box[3] - box[1]) if box else (20, 20)
            for im, src in zip(out, list(b.images)):
                equal('size of a scaled frame', im.size, (w // scale, h // scale))
                if scale == 1:
                    equal('frame at scale 1', im.tobytes(), (src.crop(box) if box else src).tobytes())
        elif what == 'paint':
            # What is done with the frames later does not reach the base image or other frames
            if not self.want:
                raise Disabled()
            im = b.build_one(0.5)
            im.paste((1, 2, 3, 255), (0, 0, 20, 20))

    def check(self):
        self.compare(self.builder.images, self.want)
        for out, want in self.earlier:
            self.compare(out, want)
        require(self.base.tobytes() == self.before and self.builder.base is self.base, 'the base image has changed')
        same('matrix', self.builder.matrix.as_6tuple(), matrix_of(self.setting[2]).as_6tuple(), 0)

    def canon(self):
        return self.setting, tuple(self.want)


def check_build(case, obs):
    kinds, base, matrix, steps, draft = case
    w = World(kinds, base, matrix, draft)
    w.apply(('all', steps))
    w.check()
    out = w.builder.images
    require(len({id(im) for im in out}) == steps, 'frames share an image')
    again = w.builder.build_all(steps)
    w.compare(again, w.want)
    # Moving frames move
    if kinds and steps > 2:
        require(len({im.tobytes() for im in out}) > 1, 'all frames are the same')
    obs.state(case)
    return steps


class Recorder(object):
    def __init__(self):
        self.times = []

    def update(self, t):
        self.times.append(t)


def check_times(case, obs):
    """Frame k of n shows the time k / n, also when frames are built again"""
    runs, = case
    for rec in (Recorder(), AnimationHolder()):
        pt = Point(3, 4)
        if not isinstance(rec, Recorder):
            seen = []
            rec.add(AnimationGeneric(pt, lambda t, orig, cur: seen.append(t) or (t, t)))
        b = model_builder(Image.new('RGBA', (3, 2)), rec)
        for n in runs:
            times = rec.times if isinstance(rec, Recorder) else seen
            del times[:]
            out = b.build_all(n)
            equal('number of frames', (len(out), len(b.images)), (n, n))
            times = [t for i, t in enumerate(times) if i == 0 or t != times[i - 1]]
            same('times of %d frames' % n, times, [k / n for k in range(n)], 1e-12)
            obs.step(n)
    obs.state(runs)


def run(ctx):
    ctx.assume('Sizes are at least the scale, scales are whole numbers')
    deep = ctx.deep
    small = [[''.join(c[:2]), ''.join(c[2:])] for c in itertools.product('ot-c', repeat=4)]
    tiny = [[a + b] for a in 'otf-' for b in 'otf-']
    ctx.sweep('boxes of one', [((f,), h) for f in small for h in ('own', 'given', 'empty list')], check_bbox, 'all 2x2 images')
    ctx.sweep('boxes of two', [((f, g), 'own') for f in small[::1 if deep else 3] for g in small], check_bbox, 'pairs of 2x2 images')
    lines = [[''.join(c)] for c in itertools.product('o-', repeat=5)]
    wide = [['-----', r[0], '-----'] for r in lines]
    tall = [[c for c in r[0]] for r in lines]
    ctx.sweep('boxes of lines', [((f, g, h), 'given') for f in lines[::1 if deep else 2] for g in lines[::3] for h in lines], check_bbox, 'three lines of pixels')
    ctx.sweep('boxes of columns', [((f, g), 'given') for f in tall for g in tall] + [((f, g), 'own') for f in wide for g in wide], check_bbox, 'columns, and lines within')
    ctx.sweep('boxes of many', [(c, 'own') for n in (3, 4) for c in itertools.product(tiny[::1 if deep and n == 3 else 3], repeat=n)], check_bbox, 'several small frames')
    mixed = tiny[::5] + lines[1::9] + small[3::40] + [['-----', '-----', '--o--'], ['---', '---'], ['o'], ['-'], ['---------', '--------t']]
    ctx.sweep('boxes of any size', [(c, h) for n in (2, 3) for c in itertools.product(mixed[::1 if deep or n == 2 else 2], repeat=n) for h in ('own', 'given')], check_bbox,
              'frames of different sizes')
    ctx.sweep('joined boxes', [(a,) for a in BOXES], check_bbox_max, 'pairs of boxes')
    blocks = [[''.join(c[:2]), ''.join(c[2:])] for c in itertools.product('ob-', repeat=4)]
    ctx.sweep('scaling', [((f, g), s, h) for f in blocks[::1 if deep else 2] for g in blocks[::7] for s in (1, 2, 3, 4) for h in ('own', 'given', 'crop')], check_scaled,
              'frames of coloured blocks scaled, and scaled after cropping')
    ctx.sweep('scaling more', [((f, f[::-1], g, f), s, h) for f in blocks for g in blocks[1:3] for s in (1, 2) for h in ('own', 'crop')], check_scaled, 'four frames')
    ctx.sweep('crops', [((x, y, X, Y), s) for x in range(-1, 4) for y in range(-1, 3) for X in range(x + 2, 8) for Y in range(y + 2, 7) for s in (1, 2)], check_crop,
              'all boxes, also over the edge')
    ctx.sweep('sizes', [(r, s) for r in small + [['obt', '-co'], ['oo' * 4] * 3, ['-o' * 3] * 6, ['b']] for s in itertools.product((1, 2, 3, 7), repeat=2)], check_resize,
              'resizing to all sizes')
    ctx.sweep('composing', [(r, c) for r in small + [['obtf-c']] for c in COLORS], check_composed, 'images over colours')
    kinds = [(), ('linear',), ('sinus',), ('circle',), ('morph',), ('ramp', 'circle'), ('linear', 'sinus', 'circle', 'morph')]
    ctx.sweep('frames', [(k, b, m, s, d) for k in kinds for b in ('white', 'clear', 'painted') for m in MATRIX for s in ctx.pick((1, 2, 4, 5), (1, 2, 3, 4, 5, 8, 13))
                         for d in (True, False)], check_build, 'frames of animated models')
    ctx.sweep('times', [((n,),) for n in range(1, ctx.pick(121, 501))] + [(r,) for r in itertools.product((1, 3, 7, 8), repeat=3)], check_times,
              'times of all numbers of frames')
    ops = [('all', 1), ('all', 3), ('all', 4), ('one',), ('one', 0.25), ('one', 0.75), ('one', 0.5, 3), ('box',), ('scale', 2, None), ('scale', 1, (2, 3, 17, 20)), ('paint',)]
    for k in (('linear', 'sinus', 'circle', 'morph'), ('morph',)):
        ctx.histories('building with %s' % ' '.join(k), lambda: World(k, 'painted', 'flip', True), ops, ctx.pick(3, 4), 'frames built, measured and scaled in any order')
