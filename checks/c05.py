"""C05: exact sampling enumerates every basis state exactly once, with its normalised probability, on every layout."""
RULE = ("a case = a history of sample() calls of one exact sampler (random amplitudes, shape, local dimension, kappa, parameter updates, "
        "explicit parameters, amplitude shifts up to +-1500) on one device x rank layout; the weight of every basis state is collected over all devices and ranks; "
        "non-trivial when the amplitudes are not uniform")
REQUIRED = {"histories": 20, "states_accounted": 500, "padded_layouts": 3, "large_bases": 4}


def SHARDS(tier):
    lay = [(1, 1), (4, 1), (3, 1), (8, 1), (1, 2), (2, 2), (1, 3), (3, 2)]
    if tier == "thorough":
        lay += [(5, 1), (2, 3), (1, 5), (7, 1)]
    return [{"fn": "run", "dev": d, "ranks": r, "mpi": True, "lay": "%dx%d" % (d, r), "key": "L%dx%d" % (d, r)} for d, r in lay]


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    import jVMC.mpi_wrapper as mpi
    import zoo
    D, R = ctx.dev, ctx.size

    def gath(x):
        x = np.asarray(x)
        return np.concatenate([np.asarray(y) for y in ctx.comm.allgather(x.reshape((-1,) + x.shape[2:]))])

    for i, rng in ctx.cases("exact", ctx.n(14, 60)):
        lDim = [2, 2, 3, 4][int(rng.integers(4))]
        shape = {2: [(1,), (2,), (3,), (5,), (2, 2), (2, 3), (6,)], 3: [(1,), (2,), (3,), (1, 2)], 4: [(1,), (2,), (2, 1), (3,)]}[lDim]
        shape = shape[int(rng.integers(len(shape)))]
        if lDim ** int(np.prod(shape)) < R:
            shape = (3,)
        kind = ["cpx", "re", "real"][int(rng.integers(3))]
        lpf = [0.5, 1.0, 0.5, 0.8][int(rng.integers(4))]
        n = lDim ** int(np.prod(shape))
        desc = dict(lDim=lDim, shape=shape, kind=kind, kappa=lpf, states=n, layout="%dx%d" % (D, R))
        with ctx.case("exact", i, sorted(desc.items()), nontrivial=n > 1, desc=desc):
            psi, v = zoo.table(jVMC, shape, lDim, kind, rng, 1.0, batchSize=[1000, 3][int(rng.integers(2))])
            smp = jVMC.sampler.ExactSampler(psi, shape, lDim=lDim, logProbFactor=lpf) if lDim != 2 or lpf != .5 else jVMC.sampler.ExactSampler(psi, shape)
            if lDim == 2 and lpf == .5:
                smp = jVMC.sampler.ExactSampler(psi, shape)
            for call in range(5):
                shift = [0., 0., 300., -300., 1500., -1500.][int(rng.integers(6))]
                spread = [1., 0.1, 8., 600.][int(rng.integers(4))]
                # a slope over the basis puts the large amplitudes on one process and the small ones on another
                ramp = [0., 0., 900., -900.][int(rng.integers(4))] * np.linspace(0, 1, n)
                if rng.integers(2):
                    ramp = ramp[zoo.ids(zoo.basis(shape, lDim).reshape(n, -1)[:, ::-1], lDim)]
                v2 = rng.normal(size=n) * spread + shift + ramp + (1j * rng.uniform(-3, 3, size=n) if kind != "real" else 0)
                before = np.asarray(psi.get_parameters()).copy()
                how = int(rng.integers(3))
                if how == 0:
                    psi.set_parameters(jnp.array(zoo.table_vec(v2, kind)))
                    before = np.asarray(psi.get_parameters()).copy()
                    v = v2
                    c, lp, p = smp.sample()
                    used = v
                elif how == 1:
                    c, lp, p = smp.sample(parameters=jnp.array(zoo.table_vec(v2, kind)))
                    used = v2
                else:
                    c, lp, p = smp.sample(numSamples=int(rng.integers(1, 9)), multipleOf=2)
                    used = v
                ctx.eq(np.asarray(psi.get_parameters()), before, "exact sampling changed the variational parameters", rtol=0, atol=0)
                c_ = np.asarray(c)
                ctx.need(c_.shape[0] == D and c_.shape[2:] == tuple(shape) and np.asarray(p).shape == c_.shape[:2] == np.asarray(lp).shape,
                         "configurations, coefficients and weights do not match in shape", shapes=(c_.shape, np.asarray(lp).shape, np.asarray(p).shape))
                X, P, LP = gath(c), gath(p), gath(lp)
                idx = zoo.flat_ids(X, shape, lDim)
                ctx.need(np.all(np.isfinite(P)) and np.all(P >= 0), "weights are not finite non-negative numbers", p=P, call=call)
                ctx.need(X.min() >= 0 and X.max() < lDim, "configuration outside the Hilbert space", values=np.unique(X))
                logw = np.real(used) / lpf
                w = np.exp(logw - logw.max())
                w /= w.sum()
                acc = np.zeros(n)
                np.add.at(acc, idx, P)
                ctx.eq(acc, w, "total weight of a basis state over all devices and ranks differs from |psi|^(1/kappa)/norm", rtol=0, atol=1e-11, call=call, shift=shift)
                carriers = np.bincount(idx[P > 0], minlength=n)
                ctx.ok(np.all(carriers[w > 1e-200] == 1), "a basis state is carried by more or less than one weighted entry", carriers=carriers, call=call)
                ctx.ok(len(np.unique(idx)) == n, "a basis state is missing", present=len(np.unique(idx)), states=n)
                ctx.eq(np.real(LP), np.real(used[idx]), "returned log-amplitude differs from psi(config)", rtol=1e-12, atol=1e-10)
                ctx.eq(np.exp(1j * np.imag(LP)), np.exp(1j * np.imag(used[idx])), "phase of a returned coefficient differs from psi(config)", rtol=0, atol=1e-9)
                ctx.count("states_accounted", n)
                if len(P) > n:
                    ctx.count("padded_layouts")
            ctx.ok(smp.get_last_number_of_samples() == np.inf, "an exact sample has to count as infinitely many samples")
            ctx.count("histories")

    # bases with tens of thousands of states
    for i, rng in ctx.cases("large", ctx.n(1, 3)):
        lDim, shape = [(2, (16,)), (4, (9,)), (3, (11,)), (2, (4, 4))][(D + R + i) % 4]
        n = lDim ** int(np.prod(shape))
        with ctx.case("large", i, (lDim, shape, D, R), desc=dict(lDim=lDim, shape=shape, states=n, layout="%dx%d" % (D, R))):
            psi, v = zoo.table(jVMC, shape, lDim, "cpx", rng, 1.0, batchSize=20000)
            smp = jVMC.sampler.ExactSampler(psi, shape, lDim=lDim)
            c, lp, p = smp.sample()
            X, P, LP = gath(c), gath(p), gath(lp)
            idx = zoo.flat_ids(X, shape, lDim)
            ctx.need(X.min() >= 0 and X.max() < lDim, "configuration outside the Hilbert space", values=np.unique(X))
            w = np.exp(2 * (np.real(v) - np.max(np.real(v))))
            w /= w.sum()
            acc = np.zeros(n)
            np.add.at(acc, idx, P)
            ctx.eq(acc, w, "total weight of a basis state over all devices and ranks differs from |psi|^(1/kappa)/norm", rtol=0, atol=1e-11)
            ctx.ok(np.all(np.bincount(idx[P > 0], minlength=n) == 1), "a basis state is carried by more or less than one weighted entry")
            ctx.eq(np.asarray(LP), v[idx], "returned log-amplitude differs from psi(config)", rtol=1e-12, atol=1e-10)
            ctx.count("large_bases")
