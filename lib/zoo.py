"""Ansatz zoo, enumerations and statistics shared by the monitors (imported only inside workers)."""
import itertools

import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import flax.linen as nn


# ------------------------------------------------------------------ table ansaetze: any function of the basis state
def index_of(s, lDim):
    s = s.reshape((-1,))
    w = np.array([lDim ** k for k in range(s.shape[0])], dtype=np.int64)
    return jnp.sum(s.astype(jnp.int64) * w)


class TableCpx(nn.Module):
    """log psi(s) = c[s], holomorphic, one complex parameter per basis state."""
    n: int
    lDim: int = 2

    @nn.compact
    def __call__(self, s):
        t = self.param("t", lambda k, sh: jnp.zeros(sh, dtype=jnp.complex128), (self.n,))
        return t[index_of(s, self.lDim)]


class TableRe(nn.Module):
    """log psi(s) = a[s] + i b[s] with real parameters."""
    n: int
    lDim: int = 2
    real_output: bool = False

    @nn.compact
    def __call__(self, s):
        a = self.param("a", lambda k, sh: jnp.zeros(sh, dtype=jnp.float64), (self.n,))
        i = index_of(s, self.lDim)
        if self.real_output:
            return a[i]
        b = self.param("b", lambda k, sh: jnp.zeros(sh, dtype=jnp.float64), (self.n,))
        return a[i] + 1j * b[i]


class NonHolo(nn.Module):
    """Complex parameters, not holomorphic."""
    nh: int = 3

    @nn.compact
    def __call__(self, s):
        x = 2 * s.ravel() - 1
        ini = lambda k, sh: (jax.random.normal(k, sh) + 1j * jax.random.normal(jax.random.split(k)[0], sh)) * 0.3
        W = self.param("W", ini, (self.nh, x.shape[0]))
        b = self.param("b", ini, (self.nh,))
        y = W @ x + b
        return jnp.sum(jnp.tanh(y.real) * y.imag + 1j * jnp.abs(y) ** 2 * 0.3 + y ** 2)


def table(jVMC, shape, lDim, kind, rng, scale=1.0, batchSize=1000, values=None):
    """-> (psi, logpsi array indexed by index_of)"""
    N = int(np.prod(shape))
    n = lDim ** N
    net = {"cpx": TableCpx(n=n, lDim=lDim), "re": TableRe(n=n, lDim=lDim),
           "real": TableRe(n=n, lDim=lDim, real_output=True)}[kind]
    psi = jVMC.vqs.NQS(net, batchSize=batchSize)
    psi(jnp.zeros((jVMC.global_defs.device_count(), 1) + tuple(shape), dtype=np.int32))
    if values is None:
        values = rng.normal(size=n) * scale + (1j * rng.uniform(-3, 3, size=n) if kind != "real" else 0)
    psi.set_parameters(jnp.array(table_vec(values, kind)))
    return psi, values


def graded(jVMC, N, values, scales, ndev):
    """log psi(s) = values[s] + scales[s] * parameter[s], at parameters 0"""
    import jax.numpy as jnp
    import numpy as np
    import flax.linen as nn
    v, g = tuple(float(x) for x in values), tuple(float(x) for x in scales)

    class Graded(nn.Module):
        @nn.compact
        def __call__(self, s):
            a = self.param("a", lambda k, sh: jnp.zeros(sh), (len(v),))
            i = index_of(s, 2)
            return jnp.array(v)[i] + (jnp.array(g) * a)[i]
    psi = jVMC.vqs.NQS(Graded(), seed=1)
    psi(jnp.zeros((ndev, 1, N), dtype=np.int32))
    return psi


def table_vec(values, kind):
    v = np.asarray(values)
    return np.real(v).copy() if kind == "real" else np.concatenate([np.real(v), np.imag(v)])


def unflattener(psi):
    """flat real vector -> parameter tree, learned by writing probe vectors through the public interface"""
    p0 = psi.get_parameters()
    n = int(np.asarray(p0).size)
    psi.set_parameters(jnp.arange(n, dtype=jnp.float64))
    leaves, treedef = jax.tree_util.tree_flatten(psi.parameters["params"])
    leaves = [np.asarray(l) for l in leaves]
    psi.set_parameters(p0)

    def unflatten(v):
        out = []
        for l in leaves:
            x = v[np.real(l).astype(int)]
            if np.iscomplexobj(l):
                x = x + 1j * v[np.imag(l).astype(int)]
            out.append(x)
        return jax.tree_util.tree_unflatten(treedef, out)
    return unflatten


def basis(shape, lDim=2):
    """All configurations; row i has index_of == i."""
    N = int(np.prod(shape))
    n = lDim ** N
    ids = np.arange(n)
    c = np.stack([(ids // lDim ** k) % lDim for k in range(N)], axis=-1)
    return c.reshape((n,) + tuple(shape)).astype(np.int32)


def ids(configs, lDim=2):
    """index of every configuration of an array (..., shape): pass with the lattice flattened last"""
    c = np.asarray(configs).astype(np.int64)
    return c @ np.array([lDim ** k for k in range(c.shape[-1])], dtype=np.int64)


def flat_ids(configs, shape, lDim=2):
    N = int(np.prod(shape))
    c = np.asarray(configs)
    return ids(c.reshape(c.shape[:c.ndim - len(shape)] + (N,)), lDim)


# ------------------------------------------------------------------ library ansaetze
def lib_nets(jVMC):
    """name -> (constructor, shape, lDim)"""
    n = jVMC.nets
    sym = jVMC.util.symmetries
    out = {
        "RBM": (lambda: n.RBM(numHidden=2, bias=True), (4,), 2),
        "CpxRBM": (lambda: n.CpxRBM(numHidden=2, bias=True), (4,), 2),
        "CpxRBM2d": (lambda: n.CpxRBM(numHidden=2, bias=False), (2, 2), 2),
        "FFN": (lambda: n.FFN(layers=(3, 2), bias=True, actFun=(jnp.tanh, nn.elu)), (4,), 2),
        "CNN": (lambda: n.CNN(F=(2,), channels=(2, 2), strides=(1,), actFun=(nn.elu,), bias=True, firstLayerBias=True), (4,), 2),
        "CNN2d": (lambda: n.CNN(F=(2, 2), channels=(2,), strides=(1, 1), bias=True), (2, 3), 2),
        "CNNopen": (lambda: n.CNN(F=(2,), channels=(2,), strides=(1,), periodicBoundary=False), (4,), 2),
        "CpxCNN": (lambda: n.CpxCNN(F=(2,), channels=(2, 2), strides=(1,), bias=True), (4,), 2),
        "TwoNets": (lambda: (n.RBM(numHidden=2, bias=True), n.FFN(layers=(3,), bias=True)), (4,), 2),
        "RNN": (lambda: n.RNN1DGeneral(L=4, hiddenSize=3, depth=2), (4,), 2),
        "LSTM": (lambda: n.RNN1DGeneral(L=3, hiddenSize=2, depth=1, cell="LSTM", realValuedOutput=False), (3,), 2),
        "GRUpovm": (lambda: n.RNN1DGeneral(L=2, hiddenSize=3, depth=1, cell="GRU", realValuedOutput=True, logProbFactor=1., inputDim=4), (2,), 4),
        "RNN2d": (lambda: n.RNN2DGeneral(L=2, hiddenSize=2, depth=2), (2, 2), 2),
        "Sym": (lambda: n.SymNet(net=n.CpxRBM(numHidden=2, bias=True), orbit=sym.get_orbit_1D(4, "translation", "reflection")), (4,), 2),
        "NonHolo": (lambda: NonHolo(), (4,), 2),
        "BigRBM": (lambda: n.CpxRBM(numHidden=8, bias=True), (7,), 2),
        "BigTwo": (lambda: (n.RBM(numHidden=12, bias=True), n.FFN(layers=(9, 5), bias=True)), (7,), 2),
        "BigRNN": (lambda: n.RNN1DGeneral(L=7, hiddenSize=7, depth=2), (7,), 2),
    }
    return out


def make_psi(jVMC, name, rng, batchSize=1000, spread=0.5, seed=None):
    ctor, shape, lDim = lib_nets(jVMC)[name]
    psi = jVMC.vqs.NQS(ctor(), batchSize=batchSize, seed=int(rng.integers(1 << 30)) if seed is None else seed)
    psi(jnp.zeros((jVMC.global_defs.device_count(), 1) + shape, dtype=np.int32))
    p = np.asarray(psi.get_parameters())
    psi.set_parameters(jnp.array(p + spread * rng.normal(size=p.shape)))
    return psi, shape, lDim


_raw_cache = {}


def psi_raw(psi, configs):
    """log psi for a flat list of configurations straight through the bare network: independent of NQS batching"""
    k = id(psi.net)
    if k not in _raw_cache:
        net = psi.net
        _raw_cache[k] = (jax.jit(jax.vmap(lambda p, s: net.apply(p, s), in_axes=(None, 0))), net)
    c = np.asarray(configs)
    n = c.shape[0]
    if n == 0:
        return np.zeros((0,), dtype=complex)
    m = 64 if n <= 64 else 1 << (n - 1).bit_length()
    pad = np.concatenate([c, np.repeat(c[:1], m - n, axis=0)]) if m > n else c
    return np.asarray(_raw_cache[k][0](psi.parameters, jnp.asarray(pad)))[:n]


def spread_over(configs, ndev):
    """(n, shape) -> (ndev, n/ndev, shape)"""
    c = np.asarray(configs)
    assert c.shape[0] % ndev == 0
    return jnp.asarray(c.reshape((ndev, -1) + c.shape[1:]))


# ------------------------------------------------------------------ statistics
def chi2_p(counts, probs, floor=8.):
    """p-value of Pearson's test; cells with small expectation pooled. Impossible cells hit -> 0."""
    from scipy.stats import chi2
    counts, probs = np.asarray(counts, float).ravel(), np.asarray(probs, float).ravel()
    n = counts.sum()
    if np.any((probs <= 1e-300) & (counts > 0)):
        return 0.0, np.inf, 0
    e = n * probs
    o = np.argsort(e)
    small = e < floor
    ce, cc = e[~small], counts[~small]
    if np.any(small):
        se, sc = e[small].sum(), counts[small].sum()
        if se >= floor or len(ce) == 0:
            ce, cc = np.append(ce, se), np.append(cc, sc)
        else:
            j = np.argmin(ce)
            ce, cc = ce.copy(), cc.copy()
            ce[j] += se
            cc[j] += sc
    if len(ce) < 2:
        return 1.0, 0.0, 0
    x = np.sum((cc - ce) ** 2 / ce)
    df = len(ce) - 1
    return float(chi2.sf(x, df)), float(x), df
