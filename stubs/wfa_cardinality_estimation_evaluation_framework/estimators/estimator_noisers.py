import numpy as np
from vmc_env import ENV
from .base import EstimateNoiserBase


class GeometricEstimateNoiser(EstimateNoiserBase):
    def __init__(self, epsilon, random_state=None):
        self.epsilon = epsilon
        self.random_state = random_state if random_state is not None else np.random.RandomState()
        ENV.noisers.append(self)

    def __call__(self, cardinality_estimate):
        if ENV.exact:
            out = cardinality_estimate
        elif ENV.noise is not None:
            out = ENV.noise(self, cardinality_estimate)
        else:
            p = 1 - np.exp(-self.epsilon)
            draws = self.random_state.geometric(p, size=2)
            out = cardinality_estimate + int(draws[0]) - int(draws[1])
        ENV.noise_calls.append((self, self.epsilon, cardinality_estimate, out))
        return out
