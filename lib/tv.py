"""Dense references for variational updates (shared by C15, C16, C17, C19, C20)."""
import numpy as np


def rand_ham(op, rng, N, timedep=False, hermitian=True, default=None, scale=1.):
    """-> (library operator factory(**kw), list of strings, prefactor functions of t)"""
    from checks.c10 import plain
    strings, prefs, build = [], [], []

    def add(f, *locs):
        v = scale * round(float(rng.uniform(0.4, 1.4) * rng.choice([-1, 1])), 3)
        w = round(float(rng.uniform(0.2, 0.8)), 3) if timedep and rng.integers(2) else 0.
        if w:
            import jax.numpy as jnp
            if default is None:
                build.append(op.scal_opstr(lambda t, v=v, w=w: v + w * jnp.sin(t), tuple(locs)))
            else:       # may also be called without arguments
                build.append(op.scal_opstr(lambda t=default, v=v, w=w: v + w * jnp.sin(t), tuple(locs)))
        else:
            build.append(op.scal_opstr(v, tuple(locs)))
        prefs.append(lambda t, v=v, w=w: v + w * np.sin(t))
        strings.append([plain(o) for o in locs])
    for l in range(N):
        add(None, op.Sx(l))
        if N > 1:
            add(None, op.Sz(l), op.Sz((l + 1) % N))
        if rng.integers(2):
            add(None, op.Sy(l))
        if rng.integers(2):
            add(None, op.Sz(l))

    def make(**kw):
        O = op.BranchFreeOperator(**kw)
        for b in build:
            O.add(b)
        return O
    return make, strings, prefs


def dense(strings, prefs, N, t=0., lDim=2):
    from checks.c10 import reference
    from lib import zoo
    b = zoo.basis((N,), lDim)
    H = np.zeros((len(b), len(b)), complex)
    pv = [f(t) for f in prefs]
    for i, s in enumerate(b):
        for c, m in reference(strings, pv, tuple(int(x) for x in s)).items():
            H[i, int(zoo.ids(np.array(c), lDim))] += m
    return H


def centred(p, x):
    x = np.asarray(x)
    w = p.reshape((-1,) + (1,) * (x.ndim - 1))
    return x - np.sum(w * x, axis=0)


def merge(p, ids, *arrs):
    """merge equal configurations (weights add up)"""
    u, inv = np.unique(ids, return_inverse=True)
    w = np.zeros(len(u))
    np.add.at(w, inv, p)
    first = np.array([np.flatnonzero(ids == x)[0] for x in u])
    return (w, first) + tuple(a[first] for a in arrs)
