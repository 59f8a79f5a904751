"""Random draws as inputs: the module's `random` is replaced by a source that hands out given arrays.

The property then quantifies over every outcome of the draws instead of over PRNG keys.
"""
import jax.numpy as jnp
import numpy as np
from symx.harness import NotCovered


class Key:
    def __init__(self, src):
        self.src = src


class Keys(list):
    pass


class Source:
    """normal/uniform/bernoulli/perm/choice: lists of arrays, handed out in order of request.

    vm: array of per-item draws handed out as 'keys' for functions mapped over split keys."""

    def __init__(self, normal=(), uniform=(), bernoulli=(), perm=(), choice=(), vm=None):
        self.q = dict(normal=list(normal), uniform=list(uniform), bernoulli=list(bernoulli), perm=list(perm), choice=list(choice))
        self.vm = vm

    def key(self):
        return Key(self)

    # -- jax.random interface ------------------------------------------------
    def PRNGKey(self, seed=0):
        return Key(self)

    key_ = PRNGKey

    def split(self, key, num=2):
        if self.vm is not None:
            if self.vm.shape[0] != num:
                raise NotCovered("split into %r" % (num,))
            return self.vm
        return Keys(Key(self) for _ in range(num))

    def fold_in(self, key, data):
        return Key(self)

    def _take(self, kind, key, shape):
        shape = tuple(int(s) for s in shape)
        if not isinstance(key, (Key, Keys)):
            a = key
        else:
            a = None
            for i, c in enumerate(self.q[kind]):
                if tuple(c.shape) == shape:
                    a = self.q[kind].pop(i)
                    break
            if a is None:
                raise NotCovered("no %s draw of shape %r" % (kind, shape))
        if int(np.prod(a.shape, dtype=int)) != int(np.prod(shape, dtype=int)):
            raise NotCovered("%s draw of shape %r" % (kind, shape))
        return jnp.reshape(a, shape)

    def normal(self, key, shape=(), dtype=None):
        return self._take("normal", key, shape)

    def uniform(self, key, shape=(), dtype=None, minval=0., maxval=1.):
        u = self._take("uniform", key, shape)
        return minval + (maxval - minval) * u

    def bernoulli(self, key, p=0.5, shape=None):
        return self._take("bernoulli", key, shape) > 0

    def rademacher(self, key, shape=(), dtype=int):
        b = self._take("bernoulli", key, shape) > 0
        return (2 * b - 1).astype(dtype)

    def permutation(self, key, x, axis=0, independent=False):
        n = x if isinstance(x, (int, np.integer)) else x.shape[axis]
        p = self._take("perm", key, (n,))
        return p if isinstance(x, (int, np.integer)) else jnp.take(x, p, axis=axis)

    def choice(self, key, a, shape=(), replace=True, p=None, axis=0):
        if replace or p is not None:
            raise NotCovered("choice with replacement")
        i = self._take("choice", key, shape)
        return i if isinstance(a, (int, np.integer)) else jnp.take(a, i, axis=axis)

    def randint(self, key, shape, minval, maxval, dtype=int):
        raise NotCovered("randint")

    def __getattr__(self, name):
        raise NotCovered("random." + name)


class use:
    """Within the block, module.random is the source."""

    def __init__(self, src, *mods):
        self.src, self.mods = src, mods

    def __enter__(self):
        self.old = [m.random for m in self.mods]
        for m in self.mods:
            m.random = self.src
        return self.src.key()

    def __exit__(self, *a):
        for m, o in zip(self.mods, self.old):
            m.random = o
