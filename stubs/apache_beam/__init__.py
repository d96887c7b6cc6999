"""Stand-in for apache_beam: a direct runner whose schedule the explorer chooses."""
import pickle
from vmc_env import ENV


class DoFn:
    def process(self, *args, **kwargs):
        raise NotImplementedError()


class CombineFn:
    def create_accumulator(self, *a):
        raise NotImplementedError()


class _Transform:
    def __rrshift__(self, label):
        return self


class Create(_Transform):
    def __init__(self, values):
        self.values = list(values)

    def expand(self, _):
        order = ENV.beam_order or range(len(self.values))
        return [self.values[i] for i in order]


class ParDo(_Transform):
    def __init__(self, fn, *args, **kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def expand(self, values):
        out = []
        for v in values:
            if ENV.beam_pickle:
                v = pickle.loads(pickle.dumps(v))
            out.extend(self.fn.process(v, *self.args, **self.kwargs))
        return out


class Map(_Transform):
    def __init__(self, fn):
        self.fn = fn

    def expand(self, values):
        return [self.fn(v) for v in values]


class CombineGlobally(_Transform):
    def __init__(self, fn):
        self.fn = fn

    def expand(self, values):
        sizes = ENV.beam_bundles or [len(values)]
        accs, pos = [], 0
        for n in sizes:
            acc = self.fn.create_accumulator()
            for v in values[pos:pos + n]:
                acc = self.fn.add_input(acc, v)
            accs.append(acc)
            pos += n
        for v in values[pos:]:
            accs[-1] = self.fn.add_input(accs[-1], v)
        acc = accs[0] if len(accs) == 1 else self.fn.merge_accumulators(accs)
        return [self.fn.extract_output(acc)]


class _PCollection:
    def __init__(self, values):
        self.values = values

    def __or__(self, transform):
        return _PCollection(transform.expand(self.values))


class Pipeline:
    def __init__(self, options=None, **kw):
        self.options = options

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def __or__(self, transform):
        return _PCollection(transform.expand(None))
