import numpy as np
from vmc_env import ENV
from .set_generator_base import SetGeneratorBase

ORDER_ORIGINAL = "original"
ORDER_REVERSED = "reversed"
ORDER_RANDOM = "random"
CORRELATED_SETS_ALL = "all"
CORRELATED_SETS_ONE = "one"


class _Base(SetGeneratorBase):
    def __init__(self, set_sizes, **kwargs):
        self.set_sizes = list(set_sizes)
        self.kwargs = kwargs
        ENV.set_generators.append(self)

    def __iter__(self):
        if ENV.labels is not None:
            yield from ENV.labels(self)
        else:
            yield from self._default()


class IndependentSetGenerator(_Base):
    def __init__(self, universe_size, set_sizes, random_state):
        super().__init__(set_sizes, universe_size=universe_size, random_state=random_state)

    def _default(self):
        for n in self.set_sizes:
            yield self.kwargs["random_state"].choice(int(self.kwargs["universe_size"]), n, replace=False)


class SequentiallyCorrelatedSetGenerator(_Base):
    def __init__(self, order, correlated_sets, shared_prop, set_sizes, random_state):
        super().__init__(set_sizes, order=order, correlated_sets=correlated_sets,
                         shared_prop=shared_prop, random_state=random_state)

    def _default(self):
        rs, prev, nxt = self.kwargs["random_state"], [], 0
        for n in self.set_sizes:
            k = min(int(n * self.kwargs["shared_prop"]), len(prev))
            shared = list(rs.choice(prev, k, replace=False)) if k else []
            new = list(range(nxt, nxt + n - k))
            nxt += n - k
            ids = np.array(shared + new, dtype=int)
            prev = list(ids) if self.kwargs["correlated_sets"] == CORRELATED_SETS_ONE else sorted(set(prev) | set(ids))
            yield ids
