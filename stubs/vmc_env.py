"""The controlled environment behind the stand-ins of the two absent packages.

The packages wfa_cardinality_estimation_evaluation_framework and apache_beam are
not installable here.  The stand-ins implement the interface the repository
uses; their nondeterminism (noise, estimates, overlap labels, schedules) is
steered by the explorer through this module, and every interaction is logged.
"""


class Env:
    def __init__(self):
        self.reset()

    def reset(self):
        self.sketches = []      # every sketch created
        self.estimators = []    # every estimator created
        self.noisers = []       # every noiser created (objects)
        self.noise_calls = []   # (epsilon, value in, value out)
        self.set_generators = []  # every overlap generator created
        self.estimate = None    # hook(estimator, merged_sketch) -> list of k+ estimates
        self.noise = None       # hook(noiser, value) -> noised value
        self.labels = None      # hook(generator) -> iterable of id lists
        self.beam_order = None  # permutation of the elements
        self.beam_bundles = None  # list of bundle sizes for the combiner
        self.beam_pickle = False  # True: elements are serialised on their way to a worker
        self.exact = False      # True: no noise at all


ENV = Env()
