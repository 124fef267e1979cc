"""C09: work queues hand out each object once and lose none."""

import numpy as np

from symx.case import Case
from .common import sequences

ASSUMPTIONS = ['operation sequences of the stated length over up to three objects with arbitrary coordinates']


class Model:
    """Reference: lists of objects in canonical form."""

    def __init__(self, ctx, kind):
        self.ctx = ctx
        self.kind = kind
        self.seen = []
        self.queued = []
        self.running = []

    def canonical(self, obj):
        if self.kind == 'simplex':
            # insertion sort, by coordinates
            res = []
            for v in [tuple(x for x in v) for v in obj]:
                k = 0
                while k < len(res) and self.less(res[k], v):
                    k += 1
                res.insert(k, v)
            return tuple(res)
        return tuple(x for x in obj)

    def less(self, a, b):
        for x, y in zip(a, b):
            if self.ctx.is_true(x < y):
                return True
            if self.ctx.is_true(y < x):
                return False
        return False

    def flat(self, obj):
        return [x for v in obj for x in v] if self.kind == 'simplex' else list(obj)

    def equal(self, a, b):
        x, y = self.flat(a), self.flat(b)
        return len(x) == len(y) and self.ctx.is_true(self.ctx.all([p == q for p, q in zip(x, y)]))

    def add(self, objs):
        for obj in objs:
            obj = self.canonical(obj)
            if not any(self.equal(obj, s) for s in self.seen):
                self.seen.append(obj)
                self.queued.append(obj)

    def check(self, queue):
        ctx = self.ctx
        listed = [self.canonical(o) for o in queue.objects]
        ctx.check('number of objects', len(listed) == len(self.running) + len(self.queued))
        n = len(self.running)
        for q, l in zip(self.queued, listed[n:]):
            ctx.check('queued ones in order', self.equal(q, l))
        left = list(self.running)
        for l in listed[:n]:
            found = [r for r in left if self.equal(r, l)]
            ctx.check('running ones first', bool(found))
            left.remove(found[0])
        ctx.check('has_queued', bool(queue.has_queued) == bool(self.queued))
        if self.kind == 'simplex':
            ctx.check('finished', bool(queue.finished) == (not self.queued and not self.running))
            ctx.check('num_running', queue.num_running == len(self.running))


def make_objects(ctx, kind, count, shape):
    res = []
    for i in range(count):
        if kind == 'position':
            res.append([ctx.real('o{}_{}'.format(i, k), 0, 1) if sym else ctx.real('half{}_{}'.format(i, k), 0.5, 0.5) for k, sym in enumerate(shape)])
        else:
            # the symbolic vertices are in any order
            res.append([[ctx.real('o{}_{}{}'.format(i, j, k), 0, 1) if sym else ctx.real('half{}_{}{}'.format(i, j, k), 0.5, 0.5) for k, sym in enumerate(v)]
                        for j, v in enumerate(shape)])
    return res


def variant(kind, obj, k, form):
    """The same object in another form."""
    if kind == 'simplex':
        obj = obj[k % len(obj):] + obj[:k % len(obj)]
    if form == 'array':
        return np.array(obj)
    if form == 'tuple':
        return tuple(tuple(v) for v in obj) if kind == 'simplex' else tuple(obj)
    return obj


def operations(ctx, kind, count, shape, initial, length, adds, forms):
    from nodefinder.search._queue import SimplexQueue, PositionQueue
    objs = make_objects(ctx, kind, count, shape)
    model = Model(ctx, kind)
    first = [variant(kind, objs[i], k, forms[k % len(forms)]) for k, i in enumerate(initial)]
    cls = SimplexQueue if kind == 'simplex' else PositionQueue
    queue = cls(objects=first) if initial else cls()
    model.add(first)
    model.check(queue)
    handed, handles = [], []
    for step in range(length):
        options = [('add', a) for a in adds]
        if model.queued:
            options.append(('pop', ))
        options.extend(('finish', r) for r in range(len(model.running)))
        op = options[ctx.choice('op{}'.format(step), len(options))]
        if op[0] == 'add':
            new = [variant(kind, objs[i], step + k, forms[(step + k) % len(forms)]) for k, i in enumerate(op[1])]
            queue.add_objects(new)
            model.add(new)
        elif op[0] == 'pop':
            obj = queue.pop_queued()
            can = model.canonical(obj)
            expected = model.queued.pop(0)
            ctx.check('handed out in order', model.equal(can, expected))
            ctx.check('handed out once', not any(model.equal(can, h) for h in handed))
            handed.append(can)
            if kind == 'simplex':
                model.running.append(expected)
                handles.append((expected, obj))
            ctx.reach('pop')
        else:
            expected = model.running.pop(op[1])
            queue.set_finished([o for e, o in handles if e is expected][0])
            ctx.reach('finish')
        model.check(queue)
    # everything is handed out in the end
    while model.queued:
        can = model.canonical(queue.pop_queued())
        ctx.check('handed out in order', model.equal(can, model.queued.pop(0)))
        ctx.check('handed out once', not any(model.equal(can, h) for h in handed))
        handed.append(can)
    ctx.check('all handed out', len(handed) == len(model.seen))
    ctx.check('nothing queued', not queue.has_queued)


def larger(ctx, kind, dim, count, rounds, add_at_once):
    """
    Many objects, added again and again in different forms and handed out in between; most are constant, and
    one has a symbolic component
    """
    from nodefinder.search._queue import SimplexQueue, PositionQueue
    from .common import spread
    limits = [(0., 1.)] * dim

    def obj(k):
        if k == count // 2:
            point = [ctx.real('o', 0, 1)] + [0.5] * (dim - 1)
        else:
            point = spread(k, dim, limits)
        if kind == 'position':
            return point
        return [point] + [spread(3 * k + j + 1, dim, limits) for j in range(dim)]

    objs = [obj(k) for k in range(count)]
    if kind == 'position' and dim == 1:  # equal objects are the subject of the other cases
        for k in range(count):
            if k != count // 2:
                ctx.assume(objs[count // 2][0] != objs[k][0])
    forms = ['list', 'array', 'tuple']
    model = Model(ctx, kind)
    first = [variant(kind, objs[k], k, forms[k % 3]) for k in list(range(0, count, 2)) * 2]
    queue = (SimplexQueue if kind == 'simplex' else PositionQueue)(objects=first)
    model.add(first)
    model.check(queue)
    handed, handles = [], []

    def pop():
        given = queue.pop_queued()
        can = model.canonical(given)
        expected = model.queued.pop(0)
        ctx.check('handed out in order', model.equal(can, expected))
        ctx.check('handed out once', not any(model.equal(can, h) for h in handed))
        handed.append(can)
        if kind == 'simplex':
            model.running.append(expected)
            handles.append((expected, given))
        ctx.reach('pop')

    def finish(k):
        expected = model.running.pop(k)
        queue.set_finished([o for e, o in handles if e is expected][0])
        ctx.reach('finish')

    for r in range(rounds):
        for _ in range(1 + r % 4):
            if model.queued:
                pop()
        new = [variant(kind, objs[(7 * r + 3 * m) % count], r + m, forms[(r + m) % 3]) for m in range(add_at_once)]
        queue.add_objects(new)
        model.add(new)
        model.check(queue)
        for _ in range(r % 3):
            if model.running:
                finish(r % len(model.running))
        model.check(queue)
    while model.queued:
        pop()
    while model.running:
        finish(len(model.running) // 2)
    model.check(queue)
    ctx.check('all handed out', len(handed) == len(model.seen))


def cases(tier):
    deep = tier == 'thorough'
    res = []

    def add(name, **params):
        need = ['pop', 'handed out in order'] + (['finish'] if params['kind'] == 'simplex' else [])
        res.append(Case(name, operations, params=params, need=need, budget=600, weight=params['length'],
                        bounds='{} objects, {} operations after construction from {}'.format(
                            params['count'], params['length'], params['initial'])))

    one = [[1], [1]]
    for forms in (['list'], ['array', 'tuple']):
        f = '/'.join(forms)
        add('simplex 1D from nothing ' + f, kind='simplex', count=2, shape=one, initial=[], length=5 if deep else 4,
            adds=[[0], [1, 0]], forms=forms)
        add('simplex 1D from two ' + f, kind='simplex', count=2, shape=one, initial=[0, 1, 0], length=5 if deep else 4,
            adds=[[1, 0]], forms=forms)
        add('position 2D from nothing ' + f, kind='position', count=2, shape=[1, 1], initial=[],
            length=5 if deep else 4, adds=[[0], [1, 0, 1]], forms=forms)
        add('position 1D from three ' + f, kind='position', count=3, shape=[1], initial=[0, 1, 2],
            length=5 if deep else 3, adds=[[2, 0]], forms=forms)
    add('simplex 1D three', kind='simplex', count=3, shape=one, initial=[0, 1], length=3, adds=[[2]], forms=['list'])
    add('simplex 2D', kind='simplex', count=2, shape=[[1, 0], [0, 0], [0, 1]], initial=[0], length=2, adds=[[1, 0]],
        forms=['tuple'])
    for kind, dim, count, rounds in (('simplex', 1, 12, 8), ('simplex', 2, 16, 10), ('simplex', 3, 13, 9),
                                     ('position', 1, 16, 10), ('position', 3, 24, 14)):
        res.append(Case('{} {}D, {} objects'.format(kind, dim, count), larger, params=dict(
            kind=kind, dim=dim, count=count, rounds=rounds, add_at_once=5), need=['pop', 'handed out in order'],
            budget=300, bounds='{} objects, one with a symbolic component; {} rounds'.format(count, rounds)))
    if deep:
        add('simplex 2D all symbolic', kind='simplex', count=2, shape=[[1, 0], [0, 1], [1, 1]], initial=[0], length=3,
            adds=[[1, 0]], forms=['tuple'])
        add('simplex 1D three longer', kind='simplex', count=3, shape=one, initial=[0, 1], length=5, adds=[[2], [2, 0]],
            forms=['list'])
        add('simplex 2D from two', kind='simplex', count=2, shape=[[1, 0], [0, 1], [1, 1]], initial=[0, 1, 0], length=4,
            adds=[[1]], forms=['list'])
    return res + sequences(res,
        ['position 1D, 16 objects', 'simplex 1D, 12 objects'],
        ['position 1D from three list', 'simplex 1D, 12 objects'],
    )
