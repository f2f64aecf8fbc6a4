"""The random-stream seam: numpy's module-level generator, optionally replaced by an adversary.

An adversarial stream delivers values a real stream delivers too rarely to be seen in a
test: zeros, tails of eight standard deviations, the improbable outcomes of a choice,
uniform numbers next to 0 and 1.  Outcomes of probability below 1e-9 are never chosen.
"""
import numpy as np

NAMES = ("normal", "randn", "standard_normal", "random", "random_sample", "ranf", "sample", "rand", "uniform", "choice", "poisson", "binomial",
         "negative_binomial", "multivariate_normal")


class Adversary:
    def __init__(self, seed, tail=0.3, zero=0.1):
        self.r = np.random.RandomState(seed & 0x7FFFFFFF)
        self.tail, self.zero = tail, zero
        self.n = 0
        self.saved = {}

    def __enter__(self):
        for k in NAMES:
            self.saved[k] = getattr(np.random, k)
            setattr(np.random, k, getattr(self, k))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)

    def _shape(self, size):
        return () if size is None else size

    def _out(self, x, size):
        self.n += 1
        return x if size is not None else x[()]

    def _z(self, shape):
        r = self.r
        x = np.asarray(r.normal(size=shape))
        u = r.random_sample(x.shape)
        x = np.where(u < self.tail, np.sign(x) * (3 + 5 * r.random_sample(x.shape)), x)
        x = np.where(u > 1 - self.zero, 1e-12 * x, x)
        return x

    def standard_normal(self, size=None):
        return self._out(self._z(self._shape(size)), size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            shape = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
            z = loc + scale * self._z(shape)
            self.n += 1
            return z if shape else float(z)
        return self._out(loc + scale * self._z(size), size)

    def randn(self, *d):
        z = self._z(d)
        self.n += 1
        return z if d else float(z)

    def random_sample(self, size=None):
        u = np.asarray(self.r.random_sample(self._shape(size)))
        w = self.r.random_sample(u.shape)
        u = np.where(w < 0.15, u * 1e-12, np.where(w > 0.85, 1 - 2.0**-53 - u * 1e-12, u))
        return self._out(u, size)

    random = ranf = sample = random_sample

    def rand(self, *d):
        return self.random_sample(d if d else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random_sample(size)

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        self.n += 1
        if p is not None:
            # what numpy itself checks
            p = np.asarray(p, dtype=float)
            if p.shape != a.shape:
                raise ValueError("'a' and 'p' must have same size")
            if np.isnan(p).any():
                raise ValueError("Probabilities contain NaN")
            if (p < 0).any():
                raise ValueError("Probabilities are not non-negative")
            if abs(p.sum() - 1) > 1.5e-8:
                raise ValueError("Probabilities do not sum to 1")
            ok = np.nonzero(p > 1e-9)[0]
        else:
            ok = np.arange(len(a))

        def one():
            if self.r.random_sample() < 0.5 or p is None:
                return a[ok[self.r.randint(len(ok))]]
            return a[self.r.choice(len(a), p=p)]
        if size is None:
            return one()
        n = int(np.prod(size))
        return np.array([one() for _ in range(n)], dtype=a.dtype).reshape(size)

    def poisson(self, lam=1.0, size=None):
        return self.r.poisson(np.asarray(lam) * (3 if self.r.random_sample() < 0.3 else 1), size)

    def binomial(self, n, p, size=None):
        u = self.r.random_sample()
        if size is None and np.ndim(n) == 0 and 1e-6 < p < 1 - 1e-6 and n < 40:
            if u < 0.2:
                return 0
            if u < 0.4:
                return int(n)
        return self.r.binomial(n, p, size)

    def negative_binomial(self, n, p, size=None):
        return self.r.negative_binomial(n, p, size)

    def multivariate_normal(self, mean, cov, size=None, **k):
        return self.r.multivariate_normal(mean, cov, size, **k)
