"""Running searches deterministically, with symbolic function values and schedules."""

import asyncio


class Hang(Exception):
    """The event loop does not get to an end."""


class Loop(asyncio.SelectorEventLoop):
    """Event loop which notices endless loops and waiting forever."""

    def __init__(self, limit=4000):
        super().__init__()
        self.rounds = 0
        self.limit = limit

    def _run_once(self):
        self.rounds += 1
        if self.rounds > self.limit:
            raise Hang('more than {} rounds of the event loop'.format(self.limit))
        if not self._ready and not self._stopping:
            timers = [h for h in self._scheduled if not h.cancelled()]
            if not timers or min(h.when() for h in timers) > self.time() + 30:
                raise Hang('nothing left to run')
        super()._run_once()


def run_loop(coro, limit=4000):
    """Run a coroutine in a fresh loop, and end what it leaves running."""
    loop = Loop(limit)
    try:
        return loop.run_until_complete(coro)
    finally:
        try:
            left = asyncio.all_tasks(loop)
            for t in left:
                t.cancel()
            if left:
                loop.limit = loop.rounds + 200
                try:
                    loop.run_until_complete(asyncio.gather(*left, return_exceptions=True))
                except (Hang, asyncio.CancelledError):
                    pass
        finally:
            asyncio.set_event_loop(None)
            loop.close()


def search(ctx, gap_fct, *, limit=4000, driver=None, **kwargs):
    """nodefinder.search.run_async in a fresh event loop"""
    from nodefinder import search as search_module

    async def main():
        task = None
        if driver is not None:
            task = asyncio.get_running_loop().create_task(driver())
        try:
            return await search_module.run_async(gap_fct, **kwargs)
        finally:
            if task is not None:
                task.cancel()
                try:
                    await task
                except asyncio.CancelledError:
                    pass

    return run_loop(main(), limit)


ONE_SHOT = {'xtol': float('inf'), 'ftol': float('inf')}  # minimizations end with the initial simplex


class Function:
    """
    An arbitrary function: every distinct position has an arbitrary value.
    Equality of positions is decided by the solver.
    """

    def __init__(self, ctx, lo, hi, name='f', nonnegative=False):
        self.ctx = ctx
        self.lo, self.hi = lo, hi
        self.name = name
        self.known = []
        self.calls = []
        self.modifies = False

    def value(self, pos):
        pos = [x for x in pos]
        for p, v in self.known:
            if len(p) == len(pos) and self.ctx.is_true(self.ctx.all([a == b for a, b in zip(p, pos)])):
                return v
        v = self.ctx.real('{}{}'.format(self.name, len(self.known)), self.lo, self.hi)
        self.known.append((pos, v))
        return v

    def __call__(self, pos):
        v = self.value(pos)
        self.calls.append(([x for x in pos], v))
        if self.modifies:  # its argument, in place
            for i in range(len(pos)):
                pos[i] = pos[i] + 10 + len(self.calls)
        return v


class Valley(Function):
    """Sum of squares of the components from a minimum which is symbolic in one component, plus a constant."""

    def __init__(self, ctx, minimum, bottom=0., axis=0):
        super().__init__(ctx, None, None)
        self.minimum = list(minimum)
        self.minimum[axis] = ctx.real('minimum', *self.minimum[axis])
        self.bottom = bottom

    def value(self, pos):
        total = self.bottom
        for k, (x, c) in enumerate(zip(pos, self.minimum)):
            total = total + (k + 1) * (x - c) * (x - c)
        return total


class Schedule:
    """
    Evaluations which complete in an arbitrary order: each one waits until the
    driver (a symbolic scheduler) lets it complete.
    """

    def __init__(self, ctx, fct, settle=4, batches=False, waits=None):
        self.ctx = ctx
        self.waits = waits  # which positions have to wait (default: all)
        self.fct = fct
        self.settle = settle
        self.batches = batches
        self.pending = []
        self.steps = 0
        self.max_pending = 0
        self.on_pick = None

    async def gap(self, pos):
        if self.waits is not None and not self.waits(pos):
            return self.fct(pos)
        fut = asyncio.get_running_loop().create_future()
        self.pending.append((fut, pos))
        self.max_pending = max(self.max_pending, len(self.pending))
        await fut
        return self.fct(pos)

    async def driver(self):
        idle = 0
        while True:
            await asyncio.sleep(0)
            idle += 1
            if idle < self.settle or not self.pending:
                continue
            idle = 0
            while self.pending:
                k = self.ctx.choice('pick{}'.format(self.steps), len(self.pending))
                self.steps += 1
                fut, _ = self.pending.pop(k)
                if not fut.done():
                    fut.set_result(None)
                if not (self.batches and self.pending and self.ctx.lazy_bool('more{}'.format(self.steps))):
                    break
