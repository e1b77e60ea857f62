"""C31: saved animations show the frames they were made of"""
import contextlib
import itertools
import os
import tempfile
from PIL import Image
from mc.engine import same, equal, require, raises, show, Disabled, Violation
from mc.oracle import *
from mc.models import *
import x7.geom.anim as anim
import x7.geom.anim_simple as simple
import x7.geom.imagehelp as imagehelp
from x7.geom.anim import Builder, AnimationHolder, AnimationLinear

RED, GREEN, BLUE, YELLOW, GREY, WHITE, BLACK = (255, 0, 0), (0, 160, 0), (0, 0, 224), (240, 240, 0), (96, 96, 96), (255, 255, 255), (0, 0, 0)
LETTERS = {'r': RED, 'g': GREEN, 'b': BLUE, 'y': YELLOW, 'e': GREY, 'w': WHITE, 'k': BLACK}


def image(rows, mode='RGB'):
    """Image from rows of letters; anything else is clear (black without transparency)"""
    im = Image.new('RGBA', (len(rows[0]), len(rows)), (0, 0, 0, 0))
    im.putdata([LETTERS[c] + (255,) if c in LETTERS else (0, 0, 0, 0) for r in rows for c in r])
    return im if mode == 'RGBA' else im.convert(mode)


def blocks_image(blocks, n, mode='RGBA'):
    return image([''.join(c * n for c in r) for r in blocks for _ in range(n)], mode)


def state(im):
    return im.mode, im.size, im.tobytes(), sorted(im.info)


def close_color(a, b, within=2):
    return all(abs(x - y) <= within for x, y in zip(a, b))


@contextlib.contextmanager
def scratch():
    """A folder of its own.  Pictures are written nowhere else and no command is run"""
    real, system, cwd = Image.Image.save, os.system, os.getcwd()
    with tempfile.TemporaryDirectory(prefix='verif-c31-') as folder:
        commands, elsewhere = [], []

        def save(im, fp, *args, **kwargs):
            if isinstance(fp, (str, os.PathLike)) and not os.path.realpath(fp).startswith(os.path.realpath(folder) + os.sep):
                elsewhere.append(os.fspath(fp))
                fp = os.path.join(folder, 'elsewhere-%d%s' % (len(elsewhere), os.path.splitext(fp)[1]))
            return real(im, fp, *args, **kwargs)

        try:
            Image.Image.save = save
            os.system = commands.append
            os.chdir(folder)
            yield folder
        finally:
            os.chdir(cwd)
            Image.Image.save, os.system = real, system


# -- palettes

def colors_of(im):
    flat = im.getpalette('RGB')
    return [tuple(flat[i:i + 3]) for i in range(0, len(flat), 3)]


def check_palette(case, obs):
    """The palette has all colours of the frames, or the 256 most frequent"""
    frames, = case
    images = [image(f) if isinstance(f[0], str) else color_list(f) for f in frames]
    before = [state(im) for im in images]
    pal = Builder.make_palette(images)
    equal('mode of the palette', pal.mode, 'P')
    count = {}
    for im in images:
        for n, c in im.getcolors(1 << 20):
            count[c] = count.get(c, 0) + n
    got = colors_of(pal)
    if len(count) <= 256:
        missing = [c for c in count if c not in got]
        require(not missing, 'colours %s are not in the palette', missing[:5])
    else:
        limit = sorted(count.values(), reverse=True)[255]
        missing = [c for c in count if c not in got and count[c] > limit]
        require(not missing, 'frequent colours %s are not in the palette', missing[:5])
        equal('number of colours in the palette', len({c for c in got if count.get(c, 0) >= limit}), 256)
    require(len(got) <= 256, 'palette has %d entries', len(got))
    equal('images', [state(im) for im in images], before)
    obs.state(len(count), sorted(count.items())[:6])
    return len(count)


def color_list(spec):
    """Image of (first, number, times): number different colours, every one a number of times"""
    px = []
    for first, n, times in spec:
        for k in range(first, first + n):
            px += [(k % 251, 3 * (k // 251) + 7, (k * 5) % 256)] * times
    w = 64
    px += px[-1:] * (-len(px) % w)
    im = Image.new('RGB', (w, len(px) // w))
    im.putdata(px)
    return im


def check_converted(case, obs):
    """Converted frames show the same colours, and are clear where they have the colour of their corner"""
    rows, others, how = case
    im = image(rows)
    before = state(im)
    if how in ('palette', 'helper palette'):
        pal = Builder.make_palette([im] + [image(o) for o in others])
        pal_before = state(pal)
        f = anim.rgb_to_transparent if how == 'palette' else imagehelp.rgb_to_transparent
        out = f(im, palette_image=pal)
        equal('palette after converting', state(pal), pal_before)
    elif how == 'own':
        out = anim.rgb_to_transparent(im)
    elif how == 'few':
        out = anim.rgb_to_transparent(im, 16)
    else:
        out = imagehelp.rgba_to_transparent(im.convert('RGBA'))
    equal('mode', out.mode, 'P')
    equal('size', out.size, im.size)
    equal('image after converting', state(im), before)
    shown = out.convert('RGBA')
    corner = im.getpixel((0, 0))
    for y in range(im.size[1]):
        for x in range(im.size[0]):
            want, got = im.getpixel((x, y)), shown.getpixel((x, y))
            require(got[3] == (0 if want == corner else 255), 'pixel %s of %s is shown as %s by the corner %s', (x, y), want, got, corner)
            require(got[3] == 0 or close_color(got, want), 'pixel %s of %s is shown as %s', (x, y), want, got)
    obs.state(rows, how)
    obs.step(im.size[0] * im.size[1])
    return sorted(c for _, c in im.getcolors())


def check_two_colors(case, obs):
    """Frames of two colours become black and white, clear by the corner"""
    rows, (dark, light), how = case
    im = Image.new('RGB', (len(rows[0]), len(rows)))
    im.putdata([light if c == '#' else dark for r in rows for c in r])
    before = state(im)
    out = anim.rgb_to_transparent(im, two_color_flip=True) if how == 'flip' else imagehelp.rgb_to_transparent(im)
    equal('mode and size', (out.mode, out.size), ('P', im.size))
    equal('image after converting', state(im), before)
    shown = out.convert('RGBA')
    corner = rows[0][0]
    plain = {'#': WHITE, '.': BLACK}
    for y, r in enumerate(rows):
        for x, c in enumerate(r):
            got = shown.getpixel((x, y))
            require(got[:3] == plain[c] and got[3] == (0 if c == corner else 255), '%s pixel at %s is shown as %s', 'light' if c == '#' else 'dark', (x, y), got)
    obs.state(rows, how, dark, light)


def check_palette_image(case, obs):
    empty, = case
    im = imagehelp.palette_image(empty)
    equal('mode and size', (im.mode, im.size), ('P', (1024, 64)))
    pal = colors_of(im)
    equal('first colours', pal[:2], [BLACK, WHITE])
    shown = im.convert('RGB')
    seen = [shown.getpixel((4 * k + 1, 32)) for k in range(256)]
    if empty:
        equal('colours shown', set(seen), {BLACK})
    else:
        equal('bars', seen[:2], [BLACK, WHITE])
        require(len(set(seen[2:250])) > 200, 'bars show %d colours', len(set(seen)))
        for k in range(256):
            require(all(im.getpixel((4 * k + dx, y)) == k for dx in (0, 3) for y in (0, 63)), 'bar %d', k)
    other = imagehelp.palette_image(empty)
    other.putpixel((0, 0), 5)
    equal('pixel of another image', im.getpixel((0, 0)), 0)
    return pal[:3]


def check_hard_palette(case, obs):
    """No palette entry stays translucent; clear and opaque entries stay as they are"""
    alphas, = case
    entries = []
    for k in range(256):
        entries.append((k, 255 - k, (k * 7) % 256, alphas[k % len(alphas)]))
    im = Image.new('P', (16, 16))
    im.putdata(list(range(256)))
    im.putpalette([v for e in entries for v in e], 'RGBA')
    imagehelp.image_fix_palette(im)
    im.load()
    shown = im.convert('RGBA')
    equal('pixels', list(im.getdata()), list(range(256)))
    for k, e in enumerate(entries):
        got = shown.getpixel((k % 16, k // 16))
        if e[3] in (0, 255):
            equal('entry %d' % k, got, e)
        else:
            require(got[3] == 255, 'entry %d of alpha %d becomes %s', k, e[3], got)
    obs.state(alphas)


# -- files

def read_animation(path):
    """[(milliseconds, image)], and how often it is shown"""
    out = []
    with Image.open(path) as im:
        require(im.format == 'GIF', 'file of format %s', im.format)
        loop = im.info.get('loop')
        for k in range(getattr(im, 'n_frames', 1)):
            im.seek(k)
            out.append((im.info.get('duration'), im.convert('RGBA')))
    return out, loop


def spread(frames, ms, count):
    """The frames one by one: equal frames are saved as one of longer duration"""
    out = []
    for d, im in frames:
        if count == 1:
            return [im]
        n = round(d / ms) if d else 0
        require(n >= 1 and d == n * ms, 'a frame is shown for %s ms, frames take %s', d, ms)
        out += [im] * n
    return out


def check_blocks(what, im, frame, n, clear, off=(0, 0), scale=2):
    """Blocks of n pixels, cropped by off, away from the edges"""
    px = im.load()
    w, h = im.size
    m = n // scale
    hits = 0
    for y in range(h):
        for x in range(w):
            def cell(px, py):
                bx, by = (px * scale + off[0]) // n, (py * scale + off[1]) // n
                return frame[by][bx] if 0 <= by < len(frame) and 0 <= bx < len(frame[0]) else None
            c = cell(x, y)
            if any(cell(x + dx, y + dy) not in (None, c) for dx in (-2, 0, 2) for dy in (-2, 0, 2)):
                continue
            hits += 1
            got = px[x, y]
            want = LETTERS.get(c, BLACK)
            if want == clear:
                require(got[3] == 0, '%s: clear pixel at %s is %s', what, (x, y), got)
            else:
                require(got[3] == 255 and close_color(got, want, 8), '%s: %s pixel at %s is %s', what, want, (x, y), got)
    return hits


def visible(frames, n):
    """Box of all blocks that can be seen"""
    at = [(x, y) for f in frames for y, r in enumerate(f) for x, c in enumerate(r) if c in LETTERS]
    if not at:
        return None
    xs, ys = [p[0] for p in at], [p[1] for p in at]
    return min(xs) * n, min(ys) * n, (max(xs) + 1) * n, (max(ys) + 1) * n


def builder(images, duration=2.0):
    b = Builder(Image.new('RGBA', (4, 4), 'white'), Transform(), Group('g', PenBrush('red')), duration=duration)
    b.images = images
    return b


def check_saved(case, obs):
    frames, n, crop, how, duration, mode = case
    images = [blocks_image(f, n, mode) for f in frames]
    before = [state(im) for im in images]
    size = images[0].size
    b = builder(images if how in ('own', 'default') else [image(['rg', 'gb'], 'RGBA')], duration)
    with scratch() as folder:
        path = os.path.join(folder, 'out.gif')
        kw = {}
        if how == 'given':
            kw['images'] = images
        if not crop:
            kw['autocrop'] = False
        if how == 'default':
            b.save_animation(None, **kw)
            path = anim.TMP_ANIM
        else:
            b.save_animation(path, **kw)
        require(os.path.exists(path), 'no file was written')
        saved, loop = read_animation(path)
    equal('images after saving', [state(im) for im in images], before)
    box = (0, 0) + size
    if crop and mode == 'RGBA':
        seen = visible(frames, n)
        if seen:
            box = max(0, seen[0] - 16), max(0, seen[1] - 16), min(size[0], seen[2] + 16), min(size[1], seen[3] + 16)
    elif crop:
        # Without transparency all that is not black can be seen
        seen = visible([[c.replace('k', '-') for c in f] for f in frames], n)
        if seen:
            box = max(0, seen[0] - 16), max(0, seen[1] - 16), min(size[0], seen[2] + 16), min(size[1], seen[3] + 16)
    ms = int(1000 * duration / len(frames)) // 10 * 10
    if len(frames) > 1:
        equal('shown again and again', loop, 0)
    shown = spread(saved, ms, len(frames))
    equal('number of frames', len(shown), len(frames))
    corner = frames[0][box[1] // n][box[0] // n]
    hits = 0
    for k, (im, f) in enumerate(zip(shown, frames)):
        equal('size of frame %d' % k, im.size, ((box[2] - box[0]) // 2, (box[3] - box[1]) // 2))
        hits += check_blocks('frame %d' % k, im, f, n, LETTERS.get(corner, BLACK), box[:2])
        obs.step()
    require(hits, 'nothing to see')
    obs.state(frames, crop, mode)
    return len(saved)


def square_model(path):
    """A square on its way along path"""
    g = Group('g', PenBrush('red'))
    p = Point(*path[0])
    e = ElemRectangle('r', PenBrush(None, 'red'), p, Point(path[0][0] + 16, path[0][1] + 16))
    g.add('r', e)
    holder = AnimationHolder()
    holder.add(AnimationLinear(e.p1, Point(*path[1])))
    holder.add(AnimationLinear(e.p2, Point(path[1][0] + 16, path[1][1] + 16)))
    return g, holder


def check_run(case, obs):
    """From the model to the file"""
    path, steps, base, flip, duration = case
    size = 96, 80
    under = {'clear': (0, 0, 0, 0), 'white': WHITE + (255,), 'blue': BLUE + (255,)}[base]
    model, holder = square_model(path)
    m = Transform((1, 0, 0, 0, -1, size[1])) if flip else Transform()
    b = Builder(Image.new('RGBA', size, under), m, model, holder, duration=duration, draft=False)
    with scratch() as folder:
        out = os.path.join(folder, 'run.gif')
        if steps is None:
            b.run(output=out)
            steps = 10
        else:
            b.run(steps, out)
        saved, loop = read_animation(out)
    equal('frames kept', len(b.images), steps)
    ms = int(1000 * duration / steps) // 10 * 10
    shown = spread(saved, ms, steps)
    equal('number of frames', len(shown), steps)
    boxes = []
    for k in range(steps):
        x, y = (a + (c - a) * k / steps for a, c in zip(*path))
        y0, y1 = (size[1] - y - 16, size[1] - y) if flip else (y, y + 16)
        boxes.append((x, y0, x + 16, y1))
    if base == 'clear':
        crop = [f(b[i] for b in boxes) for i, f in enumerate((min, min, max, max))]
        crop = max(0, crop[0] - 16), max(0, crop[1] - 16), min(size[0], crop[2] + 16), min(size[1], crop[3] + 16)
    else:
        crop = (0, 0) + size
    for k, (im, box) in enumerate(zip(shown, boxes)):
        require(abs(im.size[0] - (crop[2] - crop[0]) / 2) <= 1.5 and abs(im.size[1] - (crop[3] - crop[1]) / 2) <= 1.5, 'frame %d of size %s, expected %s', k, im.size, crop)
        x0, y0, x1, y1 = (v / 2 for v in (box[0] - crop[0], box[1] - crop[1], box[2] - crop[0], box[3] - crop[1]))
        for y in range(im.size[1]):
            for x in range(im.size[0]):
                got = im.getpixel((x, y))
                if x0 + 3 <= x < x1 - 3 and y0 + 3 <= y < y1 - 3:
                    require(got[3] == 255 and close_color(got, RED, 8), 'frame %d: the square at %s is %s', k, (x, y), got)
                elif x < x0 - 3 or x > x1 + 3 or y < y0 - 3 or y > y1 + 3:
                    require(got[3] == 0, 'frame %d: background at %s is %s', k, (x, y), got)
        obs.step()
    obs.state(case)
    return len(saved)


def check_simple(case, obs):
    """Simple animations: frames as they are, each shown for the time of a frame"""
    colors, size, ms, default = case

    def draw(dc, t):
        c = colors[round(t * (len(colors) - 1))]
        dc.polygon([(0, 0), (0, 10), (10, 10), (10, 0)], fill=LETTERS[c], outline=None)

    sa = simple.SimpleAnimation(draw, image_size=size, draw_bbox=(0, 0, 20, 20), steps=len(colors) - 1, frame_display_time=ms / 1000)
    sa.animate()
    before = [state(im) for im in sa.images]
    with scratch() as folder:
        old = simple.TMP_ANIM
        try:
            simple.TMP_ANIM = os.path.join(folder, 'default.gif')
            path = None if default else os.path.join(folder, 'simple.gif')
            sa.save_animation(path)
            path = path or simple.TMP_ANIM
        finally:
            simple.TMP_ANIM = old
        require(os.path.exists(path), 'no file was written')
        saved, loop = read_animation(path)
    equal('images after saving', [state(im) for im in sa.images], before)
    equal('shown again and again', loop, 0)
    shown = spread(saved, ms // 10 * 10, len(colors))
    equal('number of frames', len(shown), len(colors))
    for k, (im, c) in enumerate(zip(shown, colors)):
        equal('size', im.size, size)
        w, h = size
        inside = im.getpixel((w // 4, h - h // 4))
        outside = [im.getpixel(p) for p in ((1, 1), (w - 2, 1), (w - 2, h - 2))]
        require(inside[3] == 255 and close_color(inside, LETTERS[c], 8), 'frame %d: %s instead of %s', k, inside, LETTERS[c])
        require(all(close_color(o, (128, 128, 128), 8) for o in outside), 'frame %d: background %s', k, outside)
    obs.state(case)
    return len(saved)


def run(ctx):
    ctx.assume('Frames of an animation have the same colour in their upper left corner, which is the transparent one; '
               'colours are at least 8 apart, and frames take a multiple of 10 ms; saving as on Linux')
    deep = ctx.deep
    small = [[''.join(c[:2]), ''.join(c[2:])] for c in itertools.product('rgbk', repeat=4)]
    wide = [[''.join(c[:3]), ''.join(c[3:])] for c in itertools.product('rwey' if deep else 'rwe', repeat=6)]
    ctx.sweep('palettes', [((f, g),) for f in small[::1 if deep else 2] for g in small[::5 if deep else 17]] + [((f,),) for f in wide], check_palette, 'all small frames over four colours')
    counts = [1, 2, 3, 100, 127, 128, 254, 255, 256, 257, 258, 300, 400, 513]
    ctx.sweep('large palettes', [((((0, n, t),), ((n // 2, m, u),)),) for n in counts for m in (1, 100, 256) for t in (1, 3) for u in (1, 2)]
              + [((((0, n, 1), (n, 200, 5)),),) for n in counts], check_palette, 'numbers of colours around 256')
    lots = list(range(4, 41)) + [64, 100, 200, 256]
    ctx.sweep('palettes of many frames', [(tuple(((0, 1, 7), (k + 1, 1 + k % m, 1)) for k in range(c)),) for c in lots for m in (1, 2)]
              + [(tuple(((0, 1, 7),) + (((1, 1, 1),) if k == at else ()) for k in range(c)),) for c in lots[:37:1 if deep else 3] for at in range(c)],
              check_palette, 'every frame, or just one of them, has colours of its own')
    ctx.sweep('converted', [(f, (), h) for f in wide for h in ('palette', 'helper palette', 'own', 'few', 'rgba')], check_converted, 'all frames of 3x2 pixels over three colours')
    ctx.sweep('converted with others', [(f, (g, ['ywe', 'rrb']), h) for f in small for g in small[::3] for h in ('palette', 'helper palette')], check_converted,
              'palettes of several frames')
    two = [[''.join(c[:3]), ''.join(c[3:])] for c in itertools.product('#.', repeat=6) if len(set(c)) == 2]
    pairs = [(BLACK, WHITE), ((20, 20, 20), (250, 250, 250)), (BLUE, YELLOW), ((0, 0, 0), (16, 16, 16)), (GREEN, WHITE)]
    ctx.sweep('two colours', [(f, p, h) for f in two for p in pairs for h in ('flip', 'helper')], check_two_colors, 'all frames of 3x2 pixels over two colours')
    ctx.sweep('bars', [(False,), (True,), (0,), (1,)], check_palette_image, 'the image of a palette')
    ctx.sweep('hard palettes', [(a,) for n in (1, 2, 3) for a in itertools.product((0, 1, 128, 254, 255), repeat=n)], check_hard_palette, 'patterns of alphas')
    # Frames of 3x3 blocks with a clear corner
    n = 24
    corner = [['---', '-' + a + b, '-' + c + '-'] for a, b, c in itertools.product('-rw', repeat=3)]
    full = [[x + 'eb', 'y' + x + a, b + 'gw'] for x in 'kr' for a, b in itertools.product('gw', repeat=2)]
    one = [((f,), n, c, h, 1.0, 'RGBA') for f in corner for c in (True, False) for h in ('own', 'given', 'default')]
    one += [((f,), n, c, 'own', 1.0, m) for f in full + corner for c in (True, False) for m in ('RGB', 'RGBA')]
    ctx.sweep('one frame saved', one, check_saved, 'frames of 3x3 blocks')
    pair = [((f, g), n, c, 'own', 1.0, 'RGBA') for f in corner[::1 if deep else 2] for g in corner[::1 if deep else 3] for c in (True, False)]
    pair += [((f, g), n, False, 'given', 0.5, m) for f in full for g in full if f[0][0] == g[0][0] for m in ('RGB', 'RGBA')]
    ctx.sweep('two frames saved', pair, check_saved, 'pairs of frames')
    few = corner[1::5]
    many = [(c, n, True, 'own', d, 'RGBA') for k, d in ((3, 0.3), (3, 3.0), (4, 2.0)) for c in itertools.product(few[:4 if k == 3 or deep else 3], repeat=k)]
    ctx.sweep('frames saved', many, check_saved, 'sequences of three and four frames, also equal ones')
    long = [tuple((corner[1], corner[2])[(k == at) ^ w] for k in range(c)) for c in (9, 12, 17) for at in range(c) for w in (0, 1)]
    ctx.sweep('many frames saved', [(f, n, True, 'own', len(f) * 0.1, 'RGBA') for f in long], check_saved, 'one frame that is different from all others')
    far = [tuple([['-' * x + 'r' + '-' * (5 - x)] * 2 for x in xs]) for xs in itertools.product(range(1, 5), repeat=2)]
    far = [tuple([['-' * 6] + f + ['-' * 6] * 3 for f in fs]) for fs in far]
    ctx.sweep('cropped', [(fs, m, True, h, 1.0, 'RGBA') for fs in far for m in (16, 24, 40) for h in ('own', 'given')], check_saved, 'boxes of what can be seen, with a margin')
    paths = [((20, 20), (60, 20)), ((30, 50), (30, 20)), ((60, 24), (24, 50)), ((40, 40), (40, 40))]
    ctx.sweep('from the model to the file', [(p, s, b, f, d) for p in paths for s in (1, 2, 4, 5, None) for b in ('clear', 'white', 'blue') for f in (False, True)
                                             for d in (2.0, 1.0)], check_run, 'a moving square')
    ctx.sweep('simple animations', [(c, size, ms, d) for k in (2, 3, 4) for c in itertools.product('rgwb'[:4 if k < 4 else 3], repeat=k) for size in ((20, 20), (24, 16)) for ms in (100, 40)
                                    for d in (False, True)], check_simple, 'frames of colours')
