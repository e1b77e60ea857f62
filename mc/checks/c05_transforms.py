"""C05: transforms in lockstep with a stack of matrices"""
import itertools
from mc.engine import same, equal, require, raises, Disabled, fail
from mc.oracle import *
from x7.geom.geom import *
from x7.geom.transform import *


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


KINDS = [Boom, Stop, Exception, BaseException, GeneratorExit, KeyboardInterrupt, SystemExit, StopIteration, EmptyStackError, KeyError, IndexError,
         AttributeError, ValueError, TypeError, ZeroDivisionError, OSError, MemoryError, RecursionError, NotImplementedError, AssertionError, Warning]


PROBES = [(0, 0), (1, 0), (0, 1), (3.5, -2), (-7, 11)]
START_U = mat_mul(mat_translate(3, -1), mat_rotate_ccw(40))


def mat_of(spec):
    """Matrix of one elementary change, applied after what was there"""
    what, *a = spec
    if what == 'translate':
        return mat_translate(*a)
    if what == 'scale':
        return mat_scale(*a)
    if what == 'rotate':
        return mat_rotate_cw(*a)
    if what == 'rotate_ccw':
        return mat_rotate_ccw(*a)
    if what == 'rotate_about':
        return mat_rotate_cw_about(a[0], *a[1])
    raise KeyError(what)


def change(t, spec):
    what, *a = spec
    if what == 'rotate_about':
        p = Point(*a[1])
        r = t.rotate_about(a[0], p)
        equal('centre of rotation', p.xy(), a[1])
    else:
        r = getattr(t, what)(*a)
    require(r is t, '%s does not return the transform', what)


def maps(name, t, m, pts=PROBES):
    """Everything that maps agrees with m"""
    want = [mat_apply(m, p) for p in pts]
    flat_want = [v for p in want for v in p]
    same(name + ' as_6tuple', t.as_6tuple(), m)
    objs = [Point(*p) for p in pts]
    rel = [PointRelative(p[0] - 1, p[1] + 1, Point(1, -1)) for p in pts]
    for p, o, r, w in zip(pts, objs, rel, want):
        same(name + ' transform', t.transform(*p), w)
        q = t.transform_pt(o)
        require(isinstance(q, Point) and q is not o, '%s transform_pt gives %r', name, q)
        same(name + ' transform_pt', q.xy(), w)
        same(name + ' transform_pt of relative point', t.transform_pt(r).xy(), w)
        q = t.transform_pt(o, as_pt=False)
        require(not isinstance(q, BasePoint), '%s transform_pt(as_pt=False) gives %r', name, q)
        same(name + ' transform_pt(as_pt=False)', q, w)
    for n in (len(pts), 1, 0):
        for lst in (objs, rel, pts):
            r = t.transform_pts(lst[:n])
            equal(name + ' number of mapped points', len(r), n)
            require(all(isinstance(q, BasePoint) == isinstance(lst[0], BasePoint) for q in r), '%s transform_pts gives %r', name, r)
            same(name + ' transform_pts', r, want[:n])
            same(name + ' transform_pts flattened', t.transform_pts(lst[:n], flatten=True), flat_want[:2*n])
    equal(name + ' arguments of transform_pts', [o.xy() for o in objs], list(pts))


def many(case, obs):
    """Lists of any length"""
    n, m = case
    t = Transform(m)
    pts = [((k * 37 % 101) - 50.25, (k * 53 % 211) / 7 - 11) for k in range(n)]
    want = [mat_apply(m, p) for p in pts]
    for lst in (pts, [Point(*p) for p in pts]):
        same('%d points' % n, t.transform_pts(lst), want)
        same('%d points flattened' % n, t.transform_pts(lst, flatten=True), [v for p in want for v in p])
        same('%d points back' % n, t.untransform_pts(t.transform_pts(lst)), pts)
    obs.step(n)
    obs.state(n, m)


class World(object):
    def __init__(self):
        self.o = {'T': Transform(), 'C': Transform().scale(2, 1), 'U': Transform(START_U)}
        self.m = {'T': IDENT, 'C': mat_scale(2, 1), 'U': START_U}
        self.s = {'T': [], 'C': [], 'U': []}
        # earlier copies must stay what they were
        self.kept = []

    def apply(self, op):
        o, m, s = self.o, self.m, self.s
        what, t, *a = op
        if what == 'do':
            change(o[t], a)
            m[t] = mat_mul(mat_of(a), m[t])
        elif what == 'compose':
            require(o[t].compose(o[a[0]]) is o[t], 'compose returns something else')
            m[t] = mat_mul(m[t], m[a[0]])
        elif what == 'compose_outer':
            require(o[t].compose_outer(o[a[0]]) is o[t], 'compose_outer returns something else')
            m[t] = mat_mul(m[a[0]], m[t])
        elif what == 'compose_matrix':
            mat = Matrix([[1, 0.5, 2], [0, 2, -1], [0, 0, 1]])
            before = mat.as_tuple3x3()
            getattr(o[t], a[0])(mat)
            mm = (1, 0.5, 2, 0, 2, -1)
            m[t] = mat_mul(m[t], mm) if a[0] == 'compose' else mat_mul(mm, m[t])
            change(o[t], ('translate', 1, 1))
            m[t] = mat_mul(mat_translate(1, 1), m[t])
            equal('matrix argument', mat.as_tuple3x3(), before)
        elif what == 'reset':
            require(o[t].reset() is o[t], 'reset returns something else')
            m[t] = IDENT
        elif what == 'set':
            o[t].set_matrix(o[a[0]])
            m[t] = m[a[0]]
        elif what == 'copy':
            o[t] = o[a[0]].copy()
            m[t], s[t] = m[a[0]], []
            require(o[t] == o[a[0]], 'a copy is not equal')
        elif what == 'keep':
            self.kept.append((o[t].copy(), m[t]))
        elif what == 'push':
            require(o[t].push() is o[t], 'push returns something else')
            s[t].append(m[t])
        elif what == 'pop':
            if not s[t]:
                if t == 'C':
                    raise Disabled()
                raises(EmptyStackError, o[t].pop)
            else:
                o[t].pop()
                m[t] = s[t].pop()
        elif what == 'enter':
            # entering without push is refused if nothing is pushed; otherwise the block ends with the pop of that push
            if s[t]:
                with o[t] as x:
                    require(x is o[t], 'with gives %r', x)
                    change(o[t], ('translate', 5, 5))
                m[t] = s[t].pop()
            else:
                raises(EmptyStackError, o[t].__enter__)
        elif what == 'with':
            exc, inner = a
            saved = m[t]
            try:
                with o[t].push() as x:
                    require(x is o[t], 'with gives %r', x)
                    for spec in inner:
                        if spec == 'nested':
                            with x.push().scale(3, 3):
                                maps('nested', x, mat_mul(mat_scale(3, 3), m[t]))
                        elif spec == 'set':
                            x.set_matrix(o['U'])
                            m[t] = m['U']
                        elif spec == 'compose':
                            x.compose(o['U'])
                            m[t] = mat_mul(m[t], m['U'])
                        else:
                            change(x, spec)
                            m[t] = mat_mul(mat_of(spec), m[t])
                    maps('in block', x, m[t], PROBES[:2])
                    if exc:
                        raise exc()
            except BaseException as err:
                if type(err) is not exc:
                    raise
            else:
                require(not exc, 'the exception raised in the block disappeared')
            m[t] = saved
        else:
            raise KeyError(what)

    def peek(self):
        for n in 'TCU':
            maps(n, self.o[n], self.m[n])
        for c, m in self.kept:
            same('earlier copy', c.as_6tuple(), m)
            maps('earlier copy', c, m, PROBES[3:])

    def check(self):
        self.peek()
        # Whatever is still pushed comes back, in order, and then no more
        for n in 'TUC':
            for m in reversed(self.s[n]):
                self.o[n].pop()
                same(n + ' after pop', self.o[n].as_6tuple(), m)
            if n != 'C':
                raises(EmptyStackError, self.o[n].pop)
        require(Transform() == Transform.identity(), 'identity changed')
        same('identity', Transform().as_6tuple(), IDENT)

    def canon(self):
        return tuple(tuple(round(v, 6) for v in self.m[n]) for n in 'TCU') + tuple(
            (len(self.s[n]), tuple(tuple(round(v, 6) for v in x) for x in self.s[n])) for n in 'TCU') + (len(self.kept),)


CHANGES = [('translate', 2, -3), ('scale', 2, 0.5), ('scale', -1, 3), ('scale', 0, 2), ('rotate', 30), ('rotate', -90), ('rotate_ccw', 30),
           ('rotate_ccw', 400), ('rotate_about', 90, (2, 1)), ('rotate_about', -45, (0, 0)), ('translate', 0, 0), ('translate', 0.5, 0)]
BLOCKS = [('with', 'T', None, (('scale', 2, 3), 'nested', ('translate', 1, 1))), ('with', 'T', Boom, (('rotate', 20),)),
          ('with', 'T', ZeroDivisionError, ('nested', 'set')), ('with', 'T', None, ('compose', 'nested')),
          ('with', 'U', Boom, (('translate', 1, 1),))]
OPS = [('do', 'T') + c for c in CHANGES] + BLOCKS + [
    ('compose', 'T', 'U'), ('compose', 'T', 'T'), ('compose_outer', 'T', 'U'), ('compose_outer', 'T', 'T'), ('compose_matrix', 'T', 'compose'),
    ('compose_matrix', 'T', 'compose_outer'), ('compose_outer', 'U', 'T'), ('reset', 'T'), ('set', 'T', 'U'), ('set', 'U', 'T'),
    ('copy', 'C', 'T'), ('copy', 'T', 'C'), ('keep', 'T'), ('push', 'T'), ('pop', 'T'), ('enter', 'T'),
    ('do', 'C', 'translate', 1, 4), ('do', 'U', 'scale', 1, 2), ('push', 'C'), ('pop', 'C')]
CORE = [('do', 'T', 'translate', 2, -3), ('compose_outer', 'T', 'T'), ('do', 'T', 'rotate_about', 90, (2, 1)), ('do', 'C', 'scale', 2, 0.5), ('compose', 'T', 'C'),
        ('compose_outer', 'T', 'C'), ('set', 'T', 'C'), ('copy', 'C', 'T'), ('push', 'T'), ('pop', 'T'), ('push', 'C'), ('pop', 'C')]


def leaving(case, obs):
    """Blocks left by every kind of exception, and by return, break, continue, and the end of a generator"""
    how, depth = case
    t = Transform().rotate(30)
    m = [mat_mul(mat_of(('scale', 2, 1)), mat_rotate_cw(30))]
    t.scale(2, 1)
    for n in range(1, depth + 1):
        m.append(mat_mul(mat_translate(n, 1), m[-1]))
    after = []

    def inside(n):
        with t.push().translate(n, 1) as x:
            same('in block', x.as_6tuple(), m[n])
            if n < depth:
                for _ in (1, 2):
                    if how == 'generator':
                        yield from inside(n + 1)
                    else:
                        for v in inside(n + 1):
                            yield v
                    if how == 'break':
                        break
            elif how in ('return', 'break', 'generator'):
                yield 'here'
                if how == 'return':
                    return
            elif how != 'continue':
                raise how(how.__name__) if how is not GeneratorExit else how()
        after.append(n)
    caught = None
    g = inside(1)
    if how == 'generator':
        equal('value', next(g), 'here')
        g.close()
        equal('statements after the blocks', after, [])
    elif isinstance(how, str):
        for v in g:
            equal('value', v, 'here')
    else:
        try:
            next(g, None)
        except BaseException as err:
            caught = err
        if how is StopIteration:
            # what Python makes of it in a generator
            require(type(caught) is RuntimeError and type(caught.__cause__) is StopIteration, 'StopIteration came out as %r', caught)
        else:
            require(type(caught) is how, '%s came out as %r', how.__name__, caught)
        equal('statements after the blocks', after, [])
        t2 = Transform()
        try:
            with t2.push():
                raise how()
        except how:
            pass
        else:
            fail('%s disappeared', how.__name__)
    same('after the blocks', t.as_6tuple(), m[0])
    raises(EmptyStackError, t.pop)
    obs.step(depth)
    obs.state(str(how), depth)


def chain(case, obs):
    """Long products, large and small numbers"""
    t = Transform()
    m = IDENT
    for spec in case:
        change(t, spec)
        m = mat_mul(mat_of(spec), m)
        obs.step()
    maps('chain', t, m)
    require(t == Transform(t.as_6tuple()), 'a transform of the same numbers is not equal')
    require(not t == Transform(t.as_6tuple()).translate(1, 0), 'different transforms are equal')
    obs.state(tuple(round(v, 6) for v in m))


def exact(case, obs):
    """Products of transforms given as whole numbers, however large"""
    a, b, how = case
    rows = lambda m: [list(m[:3]), list(m[3:]), [0, 0, 1]]
    t, u = Transform(a), Transform(b)
    if how in ('compose', 'compose matrix'):
        r = t.compose(u if how == 'compose' else Matrix(rows(b)))
        m = mat_mul(a, b)
        size = mat_mul(tuple(map(abs, a)), tuple(map(abs, b)))
    else:
        r = t.compose_outer(u if how == 'outer' else Matrix(rows(b)))
        m = mat_mul(b, a)
        size = mat_mul(tuple(map(abs, b)), tuple(map(abs, a)))
    for what, got in (('product', r.as_6tuple()), ('copy', t.copy().as_6tuple())):
        require(all(abs(g - w) <= 1e-12 * s for g, w, s in zip(map(float, got), m, size)), '%s is %s, expected %s', what, tuple(map(float, got)), m)
    for p in ((0, 0), (1, 0), (-3, 10 ** 6), (2 ** 33, 5)):
        want = mat_apply(m, p)
        tol = [1e-12 * v for v in mat_apply(size, tuple(map(abs, p)))]
        for what, got in (('transform', t.transform(*p)), ('transform_pt', t.transform_pt(Point(*p)).xy()), ('transform_pts', t.transform_pts([p, Point(*p).xy()])[1]),
                          ('points', t.transform_pts([Point(*p)])[0].xy())):
            require(all(abs(g - w) <= e for g, w, e in zip(map(float, got), want, tol)), '%s of %s is %s, expected %s', what, p, got, want)
    equal('operand', tuple(map(float, u.as_6tuple())), tuple(map(float, b)))
    obs.state(case)


WHOLE = [(1, 0, 0, 0, 1, 0), (2, 0, 3, 0, 1, -1), (2 ** 33, 0, 5, 1, 3, 0), (3, 2 ** 31, 2 ** 40, -2 ** 33, 1, -2 ** 62), (10 ** 6, 10 ** 9, 7, 12, 10 ** 12, 0),
         (200, 100, 127, -128, 255, 256), (70000, -40000, 65536, 32768, 50000, -32769), (1, 0, 2 ** 53, 0, 1, 10 ** 15), (10 ** 18, 0, 1, 0, 10 ** 18, 2)]


def deep_stack(case, obs):
    """Many saved states at once; every one of them comes back"""
    depth, how, specs = case
    t, m, saved, copies = Transform(START_U), START_U, [], []
    for n in range(depth):
        t.push()
        saved.append(m)
        spec = specs[n % len(specs)]
        change(t, spec)
        m = mat_mul(mat_of(spec), m)
        if n % 7 == 3:
            copies.append((t.copy(), m))
        obs.step()

    def back(n):
        same('state after level %d' % n, t.as_6tuple(), saved[n])
        obs.state(depth, n)
    if how == 'pop':
        for n in reversed(range(depth)):
            t.pop()
            back(n)
    elif how == 'with':
        for n in reversed(range(depth)):
            with t as x:
                change(x, specs[0])
            back(n)
    else:
        # pushed again and again below the top
        for n in reversed(range(depth)):
            for k in range(n % 5):
                t.push().scale(2, 3)
            for k in range(n % 5):
                t.pop()
            same('same level again', t.as_6tuple(), m)
            t.pop()
            m = saved[n]
            back(n)
    raises(EmptyStackError, t.pop)
    for c, cm in copies:
        same('copy', c.as_6tuple(), cm)
        raises(EmptyStackError, c.pop)


def run(ctx):
    ctx.sweep('deep stacks', [(n, how, s) for n in list(range(1, 70)) + [100, 128, 200, 300, 600] + ctx.pick([], [1000, 3000]) for how in ('pop', 'with', 'again')
                              for s in ([('translate', 1, -2)], [('rotate', 10), ('translate', 3, 0)], [('scale', -1, 1), ('translate', 0, 0), ('rotate_about', 5, (2, 2))])],
              deep_stack, 'any number of states pushed at once come back in order')
    ctx.sweep('many points', [(n, m) for n in [2, 7, 16, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025, 2048, 2049, 4097] + ctx.pick([], [10001, 65537])
                              for m in (IDENT, START_U, (0.5, 3, -2, 1, -4, 1000))], many, 'lists of points of many lengths, there and back')
    ctx.sweep('whole numbers', [(a, b, h) for a in WHOLE for b in WHOLE for h in ('compose', 'compose matrix', 'outer', 'outer matrix')], exact,
              'products of transforms whose entries are whole numbers')
    ctx.histories('operations', World, OPS, ctx.pick(3, 4),
                  'all sequences of changes, compositions, copies, resets, assignments, pushes, pops and blocks that end normally or '
                  'by an exception; every way to map points compared with an independent stack of matrices')
    ctx.histories('stack and copies', World, CORE, ctx.pick(4, 6), 'longer histories of the operations that could share state')
    ctx.sweep('leaving blocks', [(h, n) for h in KINDS + ['return', 'break', 'continue', 'generator'] for n in range(1, ctx.pick(5, 7))], leaving,
              'nested blocks left in every way')
    specs = CHANGES + [('rotate', 0), ('rotate', 360), ('rotate_ccw', -1000), ('scale', 1000, 0.001), ('translate', -1e6, 1e6), ('rotate_about', 180, (-3, 5.5))]
    fine = [('rotate', 0.0004), ('rotate', 89.9996), ('rotate_ccw', 390.5), ('rotate_ccw', -180.0003), ('rotate_about', 0.0005, (1000, 500)),
            ('rotate_about', 270.0004, (3, -2)), ('rotate_about', 90, (1e-4, 1e-4)), ('scale', 1.0001, 1), ('scale', 1, 0.9999), ('scale', 1e-4, 1e-4),
            ('translate', 1e-4, 0), ('translate', 0, -1e-4), ('scale', -1, -1), ('translate', 1e5, -3e5)]
    ctx.sweep('fine products', [c for n in range(1, ctx.pick(4, 5)) for c in itertools.product(fine if n < 4 else fine[::2], repeat=n)], chain,
              'products of changes that are almost none, or almost another')
    ctx.sweep('products', [c for n in range(1, 4) for c in itertools.product(specs, repeat=n)], chain, 'all products of up to three elementary changes')
