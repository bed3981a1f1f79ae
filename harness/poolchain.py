"""A likelihood that worker processes can import."""
import numpy as np


class _P(object):
    def __init__(self, n):
        self.n = n

    def num_param(self):
        return self.n, ["p%d" % i for i in range(self.n)]

    def args2kwargs(self, args, bijective=False):
        return {}


class Pooled(object):
    def __init__(self, n, seed):
        r = np.random.RandomState(seed)
        self.low, self.high = np.full(n, -1.0), np.full(n, 2.0)
        self.mean, self.param = r.uniform(-1, 2, n), _P(n)

    @property
    def param_limits(self):
        return self.low.copy(), self.high.copy()

    def logL(self, x, verbose=False):
        return float(-np.sum((np.array(x) - self.mean) ** 2) + np.sum(np.cos(9 * np.array(x))))

    def effective_num_data_points(self, **kwargs):
        return 5
