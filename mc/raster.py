"""
Reference renderer: what must be seen in an image, from ideal outlines.

Every pixel is either certain (it lies clearly inside, on, or off an outline) and has a known colour, or it is left open
(it is nearer than a band to the border of something drawn).
"""
import numpy as np
from mc.engine import require
from mc.models import sample, IDENT, PENS, outlines, grouped
from mc import oracle
from PIL import ImageColor
from scipy import ndimage

BAND = 1.6


def rgba(color):
    if isinstance(color, str):
        color = ImageColor.getrgb(color)
    return tuple(color) + (255,) * (4 - len(color))


def inside(px, poly):
    """Even-odd rule; px (N, 2), poly (M, 2) closed"""
    a = poly
    b = np.roll(poly, -1, axis=0)
    x, y = px[:, 0][:, None], px[:, 1][:, None]
    cross = (a[:, 1] <= y) != (b[:, 1] <= y)
    dy = np.where(b[:, 1] == a[:, 1], 1, b[:, 1] - a[:, 1])
    xs = a[:, 0] + (y - a[:, 1]) * (b[:, 0] - a[:, 0]) / dy
    return ((cross & (xs > x)).sum(1) % 2).astype(bool)


def distance(px, pts, closed):
    """Distance of pixels to polyline"""
    a = pts if closed else pts[:-1]
    b = np.roll(pts, -1, axis=0) if closed else pts[1:]
    d = b - a
    dd = (d * d).sum(1)
    inv = 1 / np.where(dd == 0, 1, dd)
    x = px[:, 0][:, None] - a[:, 0]
    y = px[:, 1][:, None] - a[:, 1]
    t = x * (d[:, 0] * inv)
    t += y * (d[:, 1] * inv)
    np.clip(t, 0, 1, out=t)
    x -= t * d[:, 0]
    y -= t * d[:, 1]
    x *= x
    y *= y
    x += y
    return np.sqrt(x.min(1))


def polyline(segs):
    """Points along segments: only corners for straight ones"""
    out = []
    for s in segs:
        s = [np.array(p, float) for p in s]
        chord = s[3] - s[0]
        straight = np.dot(chord, chord) > 0 and all(abs(np.cross(chord, p - s[0])) < 1e-9 and -1e-9 <= np.dot(chord, p - s[0]) <= np.dot(chord, chord) + 1e-9 for p in s[1:3])
        ctrl = max(np.abs(np.diff(np.array(s), axis=0)).max(), 0.1)
        n = 1 if straight else int(min(32, max(8, ctrl)))
        pts = sample([s], n)[0]
        out.extend(pts[:-1])
    out.append(np.array(segs[-1][3], float))
    return np.array(out)


def covered_by_lines(pts, n):
    """Points covered by n straight lines, chosen greedily"""
    done = np.zeros(len(pts), bool)
    for _ in range(n):
        left = pts[~done]
        if not len(left):
            break
        best = None
        for i in range(0, len(left), max(1, len(left) // 12)):
            for j in range(i + 1, len(left), max(1, len(left) // 24)):
                d = left[j] - left[i]
                on = np.abs((pts[:, 0] - left[i][0]) * d[1] - (pts[:, 1] - left[i][1]) * d[0]) <= 1.6 * np.hypot(*d)
                if best is None or on.sum() > best.sum():
                    best = on
        if best is None:
            best = np.hypot(*(pts - left[0]).T) < 2
        done |= best
    return done


class Canvas(object):
    """Expected contents of a layer"""
    def __init__(self, size, colors=None):
        self.size = size
        w, h = size
        self.px = np.array([(x, y) for y in range(h) for x in range(w)], float)
        self.color = np.zeros((w * h, 4))
        self.known = np.ones(w * h, bool)
        self.cache = {}
        self.lines = []     # (fill colour, number of rings) of filled areas with holes
        self.marks = []     # [points that must have a colour close by, colour, covered, how close]

    def distance(self, line, closed):
        key = id(line), closed
        if key not in self.cache:
            self.cache[key] = line, distance(self.px, line, closed)     # Keeps line, and its id
        return self.cache[key][1]

    def paint(self, sure, maybe, color):
        """Pixels surely and possibly having color"""
        self.color[sure] = color
        self.known = (self.known & ~maybe) | sure
        for m in self.marks:
            m[2] |= self._touched(m[0], maybe)

    def _touched(self, pts, maybe):
        """Points that have possibly changed pixels close by"""
        w, h = self.size
        grid = maybe.reshape(h, w)
        out = np.zeros(len(pts), bool)
        if len(pts):
            wide = ndimage.maximum_filter(grid, 5)
            ij = np.clip(np.rint(pts).astype(int), 0, (w - 1, h - 1))
            out = wide[ij[:, 1], ij[:, 0]]
        return out

    def fill(self, rings, color):
        """Fill everything within an odd number of rings"""
        ins = np.zeros(len(self.px), bool)
        dist = np.full(len(self.px), 1e9)
        for r in rings:
            ins ^= inside(self.px, r)
            dist = np.minimum(dist, self.distance(r, True))
        sure = ins & (dist > BAND)
        maybe = ins | (dist <= BAND)
        self.paint(sure, maybe, rgba(color))

    def stroke(self, line, closed, color, width, mark=True, round_ends=False):
        dist = self.distance(line, closed)
        sure = dist < width / 2 - BAND
        maybe = dist <= width / 2 + BAND
        if not closed and len(line):
            for end in line[0], line[-1]:
                sure &= np.hypot(*(self.px - end).T) > width / 2 + BAND
        self.paint(sure, maybe, rgba(color))
        if mark and len(line):
            w, h = self.size
            nxt = np.roll(line, -1, axis=0) if closed else line[1:]
            dense = []
            for a, b in zip(line, nxt):
                n = max(1, int(np.hypot(*(b - a)) / 2))
                dense += [a + (b - a) * k / n for k in range(n + 1)]
            pts = np.array(dense)
            ok = (pts[:, 0] > 1.5) & (pts[:, 1] > 1.5) & (pts[:, 0] < w - 2.5) & (pts[:, 1] < h - 2.5)
            pts = pts[ok]
            self.marks.append([pts, rgba(color), np.zeros(len(pts), bool), 3 if width == 1 else 5])

    def compare(self, what, image):
        """Compare with an RGBA image of the layer"""
        w, h = self.size
        require(image.size == (w, h), '%s: image of size %r, expected %r', what, image.size, (w, h))
        got = np.asarray(image).reshape(-1, 4).astype(float)
        # Clear pixels are equal whatever their colour
        clear = (got[:, 3] == 0) & (self.color[:, 3] == 0)
        bad = self.known & ~clear & (np.abs(got - self.color).max(1) > 1)
        for color, n in self.lines:
            # The area may be joined with its holes by lines without width
            color = np.array(color)
            ours = bad & ((np.abs(got - color).max(1) <= 1) | (np.abs(self.color - color).max(1) <= 1))
            thick = ndimage.binary_opening(ours.reshape(h, w), np.ones((4, 4))).ravel()     # No line
            bad[ours] = ~covered_by_lines(self.px[ours], 2 * (n - 1)) | thick[ours]
        if bad.any():
            i = int(np.argmax(bad))
            require(False, '%s: %d wrong pixels, first at (%d, %d) is %s, expected %s', what, int(bad.sum()), i % w, i // w,
                    tuple(map(int, got[i])), tuple(map(int, self.color[i])))
        img = got.reshape(h, w, 4)
        for pts, color, covered, reach in self.marks:
            pts = pts[~covered]
            if len(pts):
                there = ndimage.maximum_filter(np.abs(img - np.array(color)).max(2) <= 1, reach)
                ij = np.clip(np.rint(pts).astype(int), 0, (w - 1, h - 1))
                miss = ~there[ij[:, 1], ij[:, 0]]
                require(not miss.any(), '%s: nothing drawn in %r at %s', what, color, pts[miss][:1].tolist())


def draw(canvas, d, m=IDENT, prod=True, widths=None, show_hidden=False):
    """Draw the element described by d under mapping m"""
    for top, outs in grouped(d, m, show_hidden):
        pen = PENS[top['pen']]()
        lines = [(polyline(segs), closed) for segs, closed, leaf in outs]
        if pen.brush:
            canvas.fill([p for p, _ in lines], pen.brush.color)
            if len(lines) > 1:
                canvas.lines.append((rgba(pen.brush.color), len(lines)))
        if pen.pen:
            width = 1
            scaled = pen.pen.width
            if scaled <= 0:
                scaled = -scaled * abs(oracle.mat_det(m)) ** 0.5
            if prod:
                width = max(1, scaled)
            for p, closed in lines:
                canvas.stroke(p, closed, pen.pen.brush.color, width)
                if not prod and scaled > 3:     # Circles along the line, when debugging
                    maybe = canvas.distance(p, closed) <= scaled / 2 + BAND
                    canvas.paint(np.zeros_like(maybe), maybe, (0, 0, 0, 0))

