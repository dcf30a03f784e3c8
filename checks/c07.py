"""C07: sample statistics (means, covariances, variances, transforms, subsets, gradients of estimators) equal the weighted reference."""
RULE = ("a case = one set of observations (random dtype, dimension, uneven per-rank batches, non-uniform weights incl. exact zeros, constants, large offsets) "
        "on one device x rank layout; every statistic and every derived statistics object is compared with a serial numpy evaluation of its definition; "
        "non-trivial when weights or data are non-uniform")
REQUIRED = {"large_samples": 2, "stat_values": 500, "derived_objects": 100, "zero_weight_cases": 5, "estimator_gradients": 10, "rare_cases": 5}


def SHARDS(tier):
    lay = [(1, 1), (1, 1), (4, 1), (3, 1), (1, 2), (2, 2), (1, 3)]
    if tier == "thorough":
        lay += [(8, 1), (3, 2), (1, 1), (2, 3)]
    return [{"fn": "run", "dev": d, "ranks": r, "mpi": True, "lay": "%dx%d" % (d, r), "key": "L%d" % i} for i, (d, r) in enumerate(lay)]


def square(x):
    return x ** 2


def absval(x):
    import jax.numpy as jnp
    return jnp.abs(x) + 2.


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    import jVMC.mpi_wrapper as mpi
    import zoo
    SampledObs = jVMC.stats.SampledObs
    D, R = ctx.dev, ctx.size

    def ref(data, w):
        """(n, ...) data, (n,) weights"""
        wt = w.reshape((-1,) + (1,) * (data.ndim - 1))
        m = np.sum(wt * data, axis=0)
        return m, data - m

    def compare(o, data, w, what, sc, other=None, depth=0):
        """all scalar statistics of a SampledObs against data (n,...) and weights (n,)"""
        if data.ndim == 1:
            data = data[:, None]
        m, c = ref(data, w)
        wt = w.reshape((-1,) + (1,) * (data.ndim - 1))
        ctx.eq(o.mean(), m, what + ": mean", rtol=0, atol=1e-10 * sc)
        ctx.eq(o.var(), np.sum(wt * np.abs(c) ** 2, axis=0), what + ": variance", rtol=0, atol=1e-9 * sc ** 2)
        ctx.count("stat_values", 2)
        if data.ndim == 2:
            ctx.eq(o.covar(), np.einsum("n,nk,nl->kl", w, np.conj(c), c), what + ": covariance", rtol=0, atol=1e-9 * sc ** 2)
            ctx.count("stat_values")
        return m, c

    for i, rng in ctx.cases("obs", ctx.n(5, 50)):
        k1, k2 = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        cpx = [bool(rng.integers(2)), bool(rng.integers(2))]
        scalar = bool(rng.integers(3) == 0)
        batches = rng.integers(2, 9, size=R)
        if i % 5 == 4:
            k1, scalar = 30, False
            batches = rng.integers(300, 1500, size=R)
            ctx.count("large_samples")
        if rng.integers(2):
            batches[:] = batches[0]
        zero = bool(rng.integers(2))
        off = [0., 5., 1e3][int(rng.integers(3))]
        unif = bool(rng.integers(4) == 0)
        mk = lambda k, z: [rng.normal(size=(D, int(b)) + k) + off + (1j * rng.normal(size=(D, int(b)) + k) if z else 0) for b in batches]
        X, Y = mk(() if scalar else (k1,), cpx[0]), mk((k2,), cpx[1])
        W = [rng.uniform(0.1, 1, size=(D, int(b))) if not unif else np.ones((D, int(b))) for b in batches]
        if zero:
            for x in W:
                x[rng.uniform(size=x.shape) < 0.3] = 0.
            W[0][0, 0] = 1.
        tot = sum(x.sum() for x in W)
        W = [x / tot for x in W]
        fl = lambda Z: np.concatenate([z.reshape((-1,) + z.shape[2:]) for z in Z])
        x, y, w = fl(X), fl(Y), fl(W)
        if scalar:
            x = x[:, None]
            k1 = 1
        sc = max(np.max(np.abs(x)), np.max(np.abs(y)), 1.)
        desc = dict(dims=(k1, k2), scalar=scalar, complex=cpx, batches=batches, zero_weights=zero, offset=off, uniform=unif)
        with ctx.case("obs", i, sorted((k, str(v)) for k, v in desc.items()), desc=desc):
            my = lambda Z: jnp.array(Z[ctx.rank])
            ox, oy = SampledObs(my(X), my(W)), SampledObs(my(Y), my(W))
            mx, cx = compare(ox, x, w, "observations", sc)
            my_, cy = compare(oy, y, w, "observations", sc)
            ctx.eq(ox.covar(oy), np.einsum("n,nk,nl->kl", w, np.conj(cx), cy), "covariance of two observables", rtol=0, atol=1e-9 * sc ** 2)
            prod = np.einsum("nk,nl->nkl", np.conj(cx), cy)
            cd = ox.covar_data(oy)
            ctx.eq(cd.mean(), np.einsum("n,nkl->kl", w, prod), "covariance data: mean", rtol=0, atol=1e-9 * sc ** 2)
            pm = np.einsum("n,nkl->kl", w, prod)
            vv = np.einsum("n,nkl->kl", w, np.abs(prod - pm) ** 2)
            ctx.eq(cd.var(), vv, "covariance data: variance", rtol=1e-9, atol=1e-9)
            ctx.eq(ox.covar_var(oy), vv, "variance of the covariance", rtol=1e-8, atol=1e-8)
            ctx.eq(ox.covar_var(), np.einsum("n,nkl->kl", w, np.abs(np.einsum("nk,nl->nkl", np.conj(cx), cx) - np.einsum("n,nk,nl->kl", w, np.conj(cx), cx)) ** 2),
                   "variance of the covariance with itself", rtol=1e-8, atol=1e-8)
            ctx.eq(ox.covar_data().mean(), np.einsum("n,nk,nl->kl", w, np.conj(cx), cx), "covariance data with itself", rtol=0, atol=1e-9 * sc ** 2)
            ctx.count("stat_values", 6)
            ctx.count("derived_objects", 2)
            # transforms
            for f, nf in ((square, np.square), (absval, lambda z: np.abs(z) + 2.)):
                t = ox.transform(f)
                g = nf(x)
                g = np.where(w[:, None] > 0, g, nf(mx)[None, :])
                compare(t, g, w, "transformed observations", sc ** 2)
                ctx.count("derived_objects")
            compare(ox.transform(), x, w, "identity transform", sc)
            # a linear map acts on the first data axis of matrix-valued observations
            A = rng.normal(size=(3, k1)) + 1j * rng.normal(size=(3, k1))
            lt = cd.transform(linearFun=jnp.array(A))
            pr = np.einsum("ak,nkl->nal", A, prod)
            compare(lt, pr, w, "linearly transformed observations", 30 * sc ** 2 if off < 100 else 1e4)
            lt = cd.transform(nonLinearFun=jnp.real, linearFun=jnp.array(A))
            compare(lt, np.einsum("ak,nkl->nal", A, np.real(prod)), w, "linear transform of a non-linear transform", 30 * sc ** 2 if off < 100 else 1e4)
            ctx.count("derived_objects", 2)
            # selections
            ix = rng.permutation(k1)[:int(rng.integers(1, k1 + 1))]
            s = ox.select(jnp.array(ix))
            compare(s, x[:, ix], w, "selected observables", sc)
            ctx.eq(s.covar(oy), np.einsum("n,nk,nl->kl", w, np.conj(cx[:, ix]), cy), "covariance of selected observables", rtol=0, atol=1e-9 * sc ** 2)
            ctx.count("derived_objects")
            # subsets: slices along the batch axis of every device, renormalised
            bm = int(batches.min())
            sl = [(0, None, 2), (1, None, 2), (None, None, None), (0, max(1, bm // 2), None), (None, -1, None)][int(rng.integers(5))]
            sub = slice(*sl)
            xs, ws, ys = [a[:, sub] for a in X], [a[:, sub] for a in W], [a[:, sub] for a in Y]
            wsum = sum(a.sum() for a in ws)
            if wsum > 1e-3 and all(a.shape[1] > 0 for a in ws):
                so, syo = ox.subset(*sl), oy.subset(*sl)
                w2 = fl(ws) / wsum
                x2 = fl(xs)
                x2 = x2[:, None] if scalar else x2
                _, c2 = compare(so, x2, w2, "subset of the observations", sc)
                _, c3 = ref(fl(ys), w2)
                ctx.eq(so.covar(syo), np.einsum("n,nk,nl->kl", w2, np.conj(c2), c3), "covariance of subsets", rtol=0, atol=1e-9 * sc ** 2)
                ctx.eq(so.covar_data(syo).mean(), np.einsum("n,nk,nl->kl", w2, np.conj(c2), c3), "covariance data of subsets", rtol=0, atol=1e-9 * sc ** 2)
                compare(so.subset(0, 1), np.concatenate([a[:, :1].reshape((-1,) + ((1,) if scalar else a.shape[2:])) for a in xs]), fl([a[:, :1] for a in ws]) / sum(a[:, :1].sum() for a in ws), "subset of a subset", sc) \
                    if sum(a[:, :1].sum() for a in ws) > 1e-3 * wsum else None
                ctx.count("derived_objects", 2)
                # the parent is unchanged
                compare(ox, x, w, "observations after deriving subsets", sc)
            # tangent kernel: Gram matrix of the centred, sqrt-weighted data in rank order
            v = np.sqrt(w)[:, None] * cx
            ctx.eq(ox.tangent_kernel(), v @ np.conj(v.T), "tangent kernel", rtol=0, atol=1e-9 * sc ** 2)
            ctx.count("stat_values")
            if zero:
                ctx.count("zero_weight_cases")

    # rare samples: a tiny weight with a huge observation
    for i, rng in ctx.cases("rare", ctx.n(2, 10)):
        b = int(rng.integers(3, 7))
        cpx = bool(rng.integers(2))
        mk2 = lambda: rng.normal(size=(R, D, b, 2)) + (1j * rng.normal(size=(R, D, b, 2)) if cpx else 0)
        X, Y, W = mk2(), mk2(), rng.uniform(.2, 1, size=(R, D, b))
        tiny = 10. ** rng.uniform(-14, -9)
        r0, d0, b0 = int(rng.integers(R)), int(rng.integers(D)), int(rng.integers(b))
        with ctx.case("rare", i, (D, R, b, cpx, i), desc=dict(tiny_weight=tiny)):
            W /= W.sum()
            W[r0, d0, b0] = tiny
            W /= W.sum()
            tiny = W[r0, d0, b0]
            X[r0, d0, b0] *= tiny ** -.25
            Y[r0, d0, b0] *= tiny ** -.25
            my = lambda Z: jnp.array(Z[ctx.rank])
            ox, oy = SampledObs(my(X), my(W)), SampledObs(my(Y), my(W))
            x, y, w = X.reshape(-1, 2), Y.reshape(-1, 2), W.ravel()
            (mx, cx), (my_, cy) = ref(x, w), ref(y, w)
            prod = np.einsum("nk,nl->nkl", np.conj(cx), cy)
            pm = np.einsum("n,nkl->kl", w, prod)
            vv = np.einsum("n,nkl->kl", w, np.abs(prod - pm) ** 2)
            ctx.eq(ox.covar_var(oy), vv, "variance of the covariance with a rare, large sample", rtol=1e-7, atol=1e-8)
            ctx.eq(ox.covar_data(oy).var(), vv, "covariance data with a rare, large sample: variance", rtol=1e-7, atol=1e-8)
            ctx.eq(ox.covar(oy), pm, "covariance with a rare, large sample", rtol=1e-9, atol=1e-9)
            q = x ** 2
            qm, qc = ref(q, w)
            t = ox.transform(square)
            ctx.eq(t.mean(), qm, "transform of a rare, large sample: mean", rtol=1e-9, atol=1e-9)
            ctx.eq(t.var(), np.sum(w[:, None] * np.abs(qc) ** 2, axis=0), "transform of a rare, large sample: variance", rtol=1e-7, atol=1e-8)
            ctx.count("rare_cases")

    # parametrised estimators: mean and its gradient w.r.t. the flat parameter vector
    for i, rng in ctx.cases("estimator", ctx.n(2, 8)):
        name = ["RBM", "CpxRBM", "FFN", "TwoNets", "NonHolo"][(i + int(ctx.rng("e").integers(5))) % 5]
        with ctx.case("estimator", i, (name, i), desc={"ansatz": name}):
            psi, shape, lDim = zoo.make_psi(jVMC, name, rng, spread=0.3)
            L = shape[0]
            h = jVMC.operator.BranchFreeOperator()
            for j in range(L):
                h.add(jVMC.operator.scal_opstr(float(rng.normal()), (jVMC.operator.Sx(j),)))
                h.add(jVMC.operator.scal_opstr(float(rng.normal()), (jVMC.operator.Sz(j), jVMC.operator.Sy((j + 1) % L))))
            smp = jVMC.sampler.ExactSampler(psi, shape)
            c, lp, p = smp.sample()
            est = h.get_estimator_function(psi)
            so = SampledObs(c, p, estimator=est)
            b = zoo.basis(shape)
            theta = np.asarray(psi.get_parameters()).copy()

            f_loc = jax.jit(jax.vmap(lambda q, s: est(q, s), in_axes=(None, 0)))

            def energy(th):
                psi.set_parameters(jnp.array(th))
                l = zoo.psi_raw(psi, b)
                pr = np.exp(2 * np.real(l - np.max(np.real(l))))
                pr /= pr.sum()
                e = np.asarray(f_loc(psi.parameters, jnp.array(b)))
                psi.set_parameters(jnp.array(theta))
                return np.sum(pr * e)
            if rng.integers(2):
                so = SampledObs(c, p, estimator=est, params=psi.parameters)
                ctx.eq(so.mean(), [energy(theta)], "mean of a parametrised estimator", rtol=1e-9, atol=1e-9)
            # one statistics object is evaluated at several parameter sets one after the other
            pw = np.asarray(p).ravel()
            pc = np.asarray(c).reshape((-1,) + tuple(shape))
            allp, allc = (np.concatenate(ctx.comm.allgather(z)) for z in (pw, pc))
            for j in range(3):
                psi.set_parameters(jnp.array(theta + .2 * rng.normal(size=theta.shape)))
                other = psi.parameters
                el = np.asarray(f_loc(other, jnp.array(allc)))
                psi.set_parameters(jnp.array(theta))
                m = np.sum(allp * el)
                ctx.eq(so.mean(other), [m], "mean of a parametrised estimator at other parameters", rtol=1e-9, atol=1e-9, step=j)
                ctx.eq(so.mean(), [m], "mean last computed", rtol=1e-9, atol=1e-9, step=j)
                ctx.eq(so.var(), [np.sum(allp * np.abs(el - m) ** 2)], "variance of a parametrised estimator at other parameters", rtol=1e-8, atol=1e-8, step=j)
            if rng.integers(2):
                ctx.eq(so.mean(psi.parameters), [energy(theta)], "mean of a parametrised estimator", rtol=1e-9, atol=1e-9)
            mean, grad = so.mean_and_grad(psi, psi.parameters)
            ctx.eq(mean, [energy(theta)], "mean of a parametrised estimator", rtol=1e-9, atol=1e-9)
            grad = np.asarray(grad)
            ctx.need(grad.shape == theta.shape, "gradient of an estimator does not match the parameter vector", got=grad.shape, want=theta.shape)
            eps = 1e-5
            for k in rng.permutation(len(theta))[:6]:
                d = np.zeros_like(theta)
                d[k] = eps
                fd = (energy(theta + d) - energy(theta - d)) / (2 * eps)
                ctx.eq(grad[k], fd, "gradient of an estimator mean differs from its finite difference", rtol=1e-5, atol=2e-6, component=int(k))
            ctx.count("estimator_gradients")
