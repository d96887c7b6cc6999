from vmc_env import ENV


class ExponentialSameKeyAggregator:
    """Exact stand-in: remembers every id with its frequency."""

    def __init__(self, length, decay_rate, random_seed):
        self.length, self.decay_rate, self.random_seed = length, decay_rate, random_seed
        self.counts = {}
        ENV.sketches.append(self)

    def add(self, id):
        self.counts[id] = self.counts.get(id, 0) + 1

    def add_ids(self, ids):
        for i in ids:
            self.add(i)


class StandardizedHistogramEstimator:
    def __init__(self, max_freq=10, reach_noiser_class=None, frequency_noiser_class=None,
                 reach_epsilon=1.0, frequency_epsilon=1.0, reach_delta=0.0, frequency_delta=0.0,
                 reach_noiser_kwargs=None, frequency_noiser_kwargs=None):
        self.max_freq = max_freq
        self.reach_noiser_class = reach_noiser_class
        self.frequency_noiser_class = frequency_noiser_class
        self.reach_epsilon, self.frequency_epsilon = reach_epsilon, frequency_epsilon
        self.reach_delta, self.frequency_delta = reach_delta, frequency_delta
        self.reach_noiser_kwargs = reach_noiser_kwargs or {}
        self.frequency_noiser_kwargs = frequency_noiser_kwargs or {}
        self.calls = 0
        self.last_sketch = None
        ENV.estimators.append(self)

    @classmethod
    def merge_two_sketches(cls, this, that):
        assert (this.length, this.decay_rate, this.random_seed) == (
            that.length, that.decay_rate, that.random_seed), "incompatible sketches"
        n = len(ENV.sketches)
        out = ExponentialSameKeyAggregator(this.length, this.decay_rate, this.random_seed)
        del ENV.sketches[n:]
        for s in (this, that):
            for k, v in s.counts.items():
                out.counts[k] = out.counts.get(k, 0) + v
        return out

    merge_sketches = merge_two_sketches

    def estimate_cardinality(self, sketch):
        self.calls += 1
        self.last_sketch = sketch
        hist = [0] * self.max_freq
        for c in sketch.counts.values():
            hist[min(c, self.max_freq) - 1] += 1
        reach = sum(hist)
        if ENV.estimate is not None:
            return ENV.estimate(self, sketch)
        reach_noiser = freq_noiser = lambda x: x
        if self.reach_noiser_class:
            reach_noiser = self.reach_noiser_class(self.reach_epsilon, **self.reach_noiser_kwargs)
        if self.frequency_noiser_class:
            freq_noiser = self.frequency_noiser_class(self.frequency_epsilon, **self.frequency_noiser_kwargs)
        noised_reach = reach_noiser(reach)
        noised = [freq_noiser(h) for h in hist]
        total = sum(noised)
        out, tail = [], 0
        for h in reversed(noised):
            tail += h
            out.append(tail)
        out.reverse()
        if ENV.exact or not total:
            return [float(x) for x in out]
        return [noised_reach * x / total for x in out]

    def output_privacy_parameters(self):
        return [
            (self.reach_noiser_class, self.reach_epsilon, self.reach_delta),
            (self.frequency_noiser_class, self.frequency_epsilon, self.frequency_delta),
        ]
