"""C23: simple animations call the drawing function once per frame, and keep its frames"""
import itertools
import numpy as np
from PIL import Image
from mc.engine import same, equal, require, raises, fail, Disabled, Violation
from mc.oracle import *
from mc import raster
from x7.geom.anim_simple import SimpleAnimation
from x7.geom.geom import BBox
from x7.geom.transform import Transform

SIZES = [(40, 40), (60, 30), (25, 50), (64, 48)]
BOXES = [(-250, -250, 250, 250), (0, 0, 1, 1), (-3, 2, 9, 6), (10, -7, 11, 5), (-2.5, -8, -0.5, -1), (1000, 1000, 1100, 1050)]
TIMES = [(0.0, 1.0), (0, 1), (-1, 3), (1, 0), (0.25, 0.3), (5, -7), (10, 17), (0, 1e-10), (1e-12, -3e-12), (1e6, 1e6 + 1), (-2e8, 3e8)]


def expected_times(lo, hi, steps):
    return [lo + (hi - lo) * k / steps for k in range(steps + 1)]


def view(size, box):
    """Mapping of box onto the image, up pointing up"""
    (w, h), (xl, yl, xh, yh) = size, box
    sx, sy = w / (xh - xl), h / (yh - yl)
    return sx, 0, -xl * sx, 0, -sy, h + yl * sy


def within(box, fx, fy):
    return box[0] + fx * (box[2] - box[0]), box[1] + fy * (box[3] - box[1])


def shape_of(k, box):
    """What is drawn in frame k: corners, colour"""
    x, y = [(0.1, 0.1), (0.5, 0.15), (0.45, 0.5), (0.1, 0.55), (0.3, 0.2)][k % 5]
    pts = [within(box, x, y), within(box, x + 0.45, y), within(box, x + 0.35, y + 0.4)]
    return pts, ['red', 'blue', (9, 200, 30), 'yellow'][k % 4]


def check_frame(what, image, size, box, background, shapes):
    m = view(size, box)
    cv = raster.Canvas(size)
    cv.color[:] = raster.rgba(background)
    for pts, color in shapes:
        cv.fill([np.array([mat_apply(m, p) for p in pts])], color)
    require(image.mode == 'RGBA', '%s has mode %r', what, image.mode)
    cv.compare(what, image)


class Recorder(object):
    """Drawing function that records its calls and draws another shape every time"""
    def __init__(self, size, box, first=0):
        self.size, self.box = size, box
        self.times = []
        self.shapes = []
        self.k = first
        self.sa = None

    def __call__(self, dc, t, move=True):
        self.times.append(t)
        m = view(self.size, self.box)
        for fx, fy in [(0, 0), (1, 0), (0, 1), (1, 1), (0.3, 0.8)]:
            p = within(self.box, fx, fy)
            same('drawing box mapped to the image at %s' % ((fx, fy),), dc.scale_pt(*p), (fx * self.size[0], (1 - fy) * self.size[1]), 1e-7)
            same('image mapped to the drawing box', dc.unscale_pt(*mat_apply(m, p)), p, 1e-7)
        pts, color = shape_of(self.k, self.box)
        self.k += 1
        if move and self.k % 3 == 2:     # The drawing function may leave its own mapping behind
            move = within(self.box, 0.05, 0.1)[0] - self.box[0], within(self.box, 0.05, 0.1)[1] - self.box[1]
            f = 1 if self.k % 2 else 0.5
            dc.matrix.compose(Transform().scale(f, f).translate(*move))
            dc.polygon([((x - move[0]) / f, (y - move[1]) / f) for x, y in pts], color, None)
        else:
            dc.polygon(pts, color, None)
        self.shapes.append((pts, color))


def check_animation(case, obs):
    size, box, (lo, hi), steps, how, background = case
    rec = Recorder(size, box)
    kw = dict(image_size=size, draw_bbox=box, t_low=lo, t_high=hi, steps=steps)
    if how == 'list':
        kw['image_size'] = list(size)
    elif how == 'swapped':
        kw['draw_bbox'] = (box[2], box[1], box[0], box[3])
    sa = SimpleAnimation(rec, **kw)
    if background:
        sa.background = background
    equal('frames before', list(sa.images), [])
    sa.animate()
    want = expected_times(lo, hi, steps)
    scale = max(abs(lo), abs(hi))
    same('times', [t / scale for t in rec.times], [t / scale for t in want], 1e-12)
    require(len(sa.images) == steps + 1, '%d frames kept, expected %d', len(sa.images), steps + 1)
    for k, im in enumerate(sa.images):
        check_frame('frame %d' % k, im, size, box, background or 'grey', [rec.shapes[k]])
    obs.step(len(want))
    return size, box, tuple(want)


def check_defaults(case, obs):
    size = (500, 500)
    box = (-250, -250, 250, 250)
    rec = Recorder(size, box)
    sa = SimpleAnimation(rec)
    sa.animate()
    same('times', rec.times, expected_times(0, 1, 20))
    require(len(sa.images) == 21, '%d frames', len(sa.images))
    for k in (0, 7, 20):
        check_frame('frame %d' % k, sa.images[k], size, box, 'grey', [rec.shapes[k]])
    return len(sa.images)


class World(object):
    """Runs of the animation mixed with single steps made by hand"""
    def __init__(self, size, box, steps):
        self.size, self.box, self.steps = size, box, steps
        self.rec = Recorder(size, box)
        self.sa = SimpleAnimation(self.rec, image_size=size, draw_bbox=box, steps=steps)
        self.frames = []
        self.background = 'grey'
        self.held = None
        self.log = []

    def apply(self, op):
        n = len(self.rec.times)
        if op == 'animate':
            self.sa.animate()
            same('times', self.rec.times[n:], expected_times(0, 1, self.steps))
            self.frames += [(self.box, self.background, [s]) for s in self.rec.shapes[n:]]
        elif op in ('step', 'two'):
            shapes = []
            with self.sa.next_step() as dc:
                for _ in range(1 if op == 'step' else 2):
                    self.rec(dc, 0, op == 'step')
                    shapes.append(self.rec.shapes[-1])
            self.frames.append((self.box, self.background, shapes))
            if op == 'two':     # The context still maps the box to the image
                for fx, fy in [(0, 0), (1, 1), (0.3, 0.8)]:
                    same('drawing box mapped to the image after the step', dc.scale_pt(*within(self.box, fx, fy)), (fx * self.size[0], (1 - fy) * self.size[1]), 1e-7)
        elif op == 'empty':
            with self.sa.next_step():
                pass
            self.frames.append((self.box, self.background, []))
        elif op == 'late':      # Drawing into a finished frame
            if self.held is None:
                with self.sa.next_step() as self.held:
                    pass
                self.frames.append((self.box, self.background, []))
            self.held.polygon(shape_of(2, self.box)[0], 'magenta', None)
        elif op == 'inside':    # Single step while drawing another
            with self.sa.next_step() as dc:
                with self.sa.next_step() as dc2:
                    self.rec(dc, 0)
                    self.rec(dc2, 0)
            self.frames += [(self.box, self.background, [self.rec.shapes[-1]]), (self.box, self.background, [self.rec.shapes[-2]])]
        elif op == 'background':
            self.sa.background = self.background = {'grey': (200, 220, 20), 'white': 'grey'}.get(self.background, 'white')
        elif op == 'box':
            self.rec.box = self.box = self.box[1], self.box[0] + 1, self.box[1] + 7, self.box[0] + 4
            self.sa.model_bbox = BBox(self.box)
        elif op == 'steps':
            self.sa.steps = self.steps = self.steps % 3 + 1
        self.log.append(op)

    def check(self):
        require(len(self.sa.images) == len(self.frames), '%d frames kept, expected %d', len(self.sa.images), len(self.frames))
        for k, (im, (box, background, shapes)) in enumerate(zip(self.sa.images, self.frames)):
            check_frame('frame %d' % k, im, self.size, box, background, shapes)

    def canon(self):
        return tuple(self.log)


def run(ctx):
    ctx.assume('Pixels nearer than 1.6 to a border may have either colour', 'Saving files is not covered')
    deep = ctx.deep
    cases = [(s, b, t, n, 'plain', None) for s in SIZES for b in BOXES for t in TIMES for n in (1, 2, 3, 5) + ((4, 7, 10, 21) if deep else ())]
    cases += [(s, b, (0, 1), 2, h, c) for s in SIZES for b in BOXES for h in ('plain', 'list', 'swapped') for c in (None, 'white', (1, 2, 3), (10, 20, 30, 0))]
    cases += [(SIZES[1], BOXES[2], t, n, 'plain', None) for t in TIMES for n in ctx.pick((7, 10, 33), range(1, 50))]
    ctx.sweep('animations', cases, check_animation, 'image sizes x drawing boxes x time ranges x steps: times of the calls, every frame')
    ctx.sweep('defaults', [0], check_defaults, 'default size, box, times')
    for size, box, steps in [((24, 16), (-3, 2, 9, 6), 2), ((16, 16), (0, 0, 1, 1), 1)]:
        ctx.histories('steps %d' % steps, lambda: World(size, box, steps), ['animate', 'step', 'two', 'empty', 'late', 'inside', 'background', 'box', 'steps'], ctx.pick(4, 5), 'runs and single steps in every order')
