"""Model of numpy's random generators: any numbers of the stated range."""
import numpy as np
import vh


def _fill(size, f):
    if size is None:
        return f()
    a = np.zeros(size)
    flat = a.reshape(-1)
    return np.array([f() for i in range(len(flat))]).reshape(a.shape)


class Generator:
    def random(self, size=None):
        return _fill(size, lambda: vh.fresh(0.0, 1.0))

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.shape(low + high)
            if size == ():
                size = None
        return low + (high - low) * _fill(size, lambda: vh.fresh(0.0, 1.0))

    def standard_normal(self, size=None):
        return _fill(size, lambda: vh.fresh(-9.0, 9.0))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def poisson(self, lam=1.0, size=None):
        if size is None and lam == 0.0:
            return 0
        vh.unsupported('unbounded random number')


def default_rng(seed=None):
    return Generator()


def seed(x=None):
    pass


_rng = Generator()
random = _rng.random
uniform = _rng.uniform
standard_normal = _rng.standard_normal
normal = _rng.normal
poisson = _rng.poisson
