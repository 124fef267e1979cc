"""Cases: one harness with fixed parameters and stated bounds."""


class Case:
    """
    name: unique within the property
    fct: harness(ctx, **params); runs symbolically and concretely
    bounds: text stating what is symbolic and within which bounds
    need: labels (checks / reachability witnesses) that have to be reached
    opts: engine options; budget: seconds for the exploration
    """

    def __init__(self, name, fct, *, params=None, bounds='', need=(), opts=None, budget=200, traces=4, weight=1,
                 replay_timeout=60):
        self.name = name
        self.fct = fct
        self.params = params or {}
        self.bounds = bounds
        self.need = tuple(need)
        self.opts = opts or {}
        self.budget = budget
        self.traces = traces
        self.weight = weight
        self.replay_timeout = replay_timeout

    def run(self, ctx):
        return self.fct(ctx, **self.params)
