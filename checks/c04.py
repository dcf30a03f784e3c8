"""C04: autoregressive ansaetze are normalised and generate samples from exactly the distribution they evaluate."""
RULE = ("a case = one recurrent ansatz (1D/2D, cell type, depth, width, local dimension, kappa, real/complex output, random parameters), "
        "bare, in a two-network or in a symmetry wrapper; its amplitudes are summed over the whole basis and its direct samples are judged against them; "
        "non-trivial when the distribution is not uniform")
REQUIRED = {"independent_pairs": 3000, "overlaps": 30, "pair_marginals": 20, "normalisations": 8, "correlated_pairs": 5, "sampled": 400000, "independence_tests": 1000, "zigzag": 3}
ASSUMPTIONS = ["statistical oracles raise an alarm at p-value < 1e-10 per test",
               "real-valued network parameters (complex-parameter RNNs are not normalised by construction, see DESIGN.md)"]


def SHARDS(tier):
    n = 7 if tier == "quick" else 8
    return [{"fn": "run", "dev": 1, "ranks": 1, "mpi": True, "part": k, "key": "p%d" % k, "lay": "1x1"} for k in range(n)] + \
           [{"fn": "run", "dev": 2, "ranks": 2, "mpi": True, "part": 3, "key": "m", "lay": "2x2"}]


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import flax.linen as nn
    import jVMC
    import jVMC.mpi_wrapper as mpi
    import zoo
    D, R = ctx.dev, ctx.size
    n = jVMC.nets
    sym = jVMC.util.symmetries

    def independent(x, pr, what):
        """draws at any fixed distance in the sample coincide as often as independent draws do"""
        q = float(np.sum((pr / pr.sum()) ** 2))
        m = len(x)
        lags = np.unique(np.concatenate([np.arange(1, 40), rng.integers(1, m // 2, size=40), [m // 2, (m + 1) // 2, m // 4, m // 3, m // 8]]))
        for lag in lags:
            hit = int(np.sum(x[lag:] == x[:-lag]))
            # coincidences at one lag are sums of weakly dependent terms; the variance is at most 4 times the binomial one
            sd = 2 * np.sqrt((m - lag) * q * (1 - q) + 1)
            ctx.ok(abs(hit - (m - lag) * q) < 8 * sd + 8, what, lag=int(lag), coincidences=hit, expected=(m - lag) * q)
        ctx.count("independence_tests", len(lags))

    combos = [(c, t, d, f) for d, f in [(2, .5), (2, 1.), (3, .5), (4, 1.), (2, .8), (2, .5)] for t in (False, True) for c in ("RNN", "LSTM", "GRU")]

    class Custom1D(nn.Module):
        @nn.compact
        def __call__(self, carry, state):
            new = jnp.tanh(nn.Dense(features=carry.shape[-1], param_dtype=float, name="c")(carry[0]) + state)
            return new[None, :], new

    class Custom2D(nn.Module):
        @nn.compact
        def __call__(self, carryH, carryV, state):
            new = jnp.tanh(nn.Dense(features=carryH.shape[-1], param_dtype=float, name="c")(jnp.concatenate([carryH[0], carryV[0]])) + state)
            return new[None, :], new

    def custom(two_d, L, depth, hid, rng):
        """a user-defined cell with an initial carry that is not zero"""
        carry = rng.normal(size=((L,) if two_d else ()) + (depth, 1, hid))
        mods = [(Custom2D if two_d else Custom1D)() for _ in range(depth)]
        mods = mods[0] if depth == 1 and rng.integers(2) else [tuple, list][int(rng.integers(2))](mods)
        return (mods, [jnp.array, np.array][int(rng.integers(2))](carry))

    per = ctx.n(6, 30)
    for i, rng in ctx.cases("rnn", per + ctx.n(1, 6)):
        k = (i * 7 + ctx.spec["part"])
        cell, two_d, dim, lpf = combos[k % len(combos)]
        if i >= per:
            cell, two_d = "custom", bool((i + ctx.spec["part"]) % 2)
            ctx.count("custom_cells")
        depth = int(rng.integers(1, 3))
        hid = int(rng.integers(1, 4))
        povm = dim == 4
        L = ([2, 3][int(rng.integers(4) > 0)] if dim == 2 else 2) if two_d else (int(rng.integers(2, 4)) if dim > 2 else int(rng.integers(1, 6)))
        if two_d and L == 3:
            hid = 3
        act = [nn.elu, jnp.tanh, nn.relu][int(rng.integers(3))]
        wrap = ["none", "none", "two", "sym"][int(rng.integers(4))]
        if wrap == "sym" and (L < 2 or lpf != 0.5):
            wrap = "none"
        real_out = True if wrap == "two" else bool(povm or rng.integers(2))
        desc = dict(dim2=two_d, cell=cell, depth=depth, hidden=hid, lDim=dim, kappa=lpf, L=L, wrap=wrap, realOut=real_out, act=act.__name__)
        if cell == "custom":
            cell = custom(two_d, L, depth, hid, rng)
        with ctx.case("rnn", i, sorted(desc.items()), desc=desc):
            cls = n.RNN2DGeneral if two_d else n.RNN1DGeneral
            net = cls(L=L, hiddenSize=hid, depth=depth, inputDim=dim, actFun=act, logProbFactor=lpf, realValuedOutput=real_out, cell=cell)
            shape = (L, L) if two_d else (L,)
            orbit = None
            if wrap == "two":
                psi = jVMC.vqs.NQS((net, n.FFN(layers=(3,), bias=True)), batchSize=[1000, 5][int(rng.integers(2))])
            elif wrap == "sym":
                orbit = sym.get_orbit_2D_square(L, *[["translation"], ["rotation", "reflection"]][int(rng.integers(2))]) if two_d else sym.get_orbit_1D(L, *[["translation"], ["translation", "reflection"]][int(rng.integers(2))])
                psi = jVMC.vqs.NQS(net, orbit=orbit, avgFun=n.avgFun_Coefficients_Sep)
            else:
                psi = jVMC.vqs.NQS(net, seed=int(rng.integers(1 << 30)))
            b = zoo.basis(shape, dim)
            psi(jnp.zeros((D, 1) + shape, dtype=np.int32))
            p0 = np.asarray(psi.get_parameters())
            spread = [0.3, 1.0, 0.0][int(rng.integers(3))]
            if two_d and L == 3:
                spread = [0.3, 1.5][int(rng.integers(2))]
                ctx.count("zigzag")
            psi.set_parameters(jnp.array(p0 + spread * rng.normal(size=p0.shape)))
            ctx.ok(psi.is_generator, "a recurrent ansatz is not recognised as generator")
            lp = zoo.psi_raw(psi, b)
            pr = np.exp(np.real(lp) / lpf)
            ctx.eq(pr.sum(), 1., "autoregressive ansatz is not normalised", rtol=0, atol=1e-9)
            ctx.count("normalisations")
            if wrap == "none" and spread == 0.3 and hid > 1 and act is not nn.relu and L > 1:
                # the conditionals know the sites generated before: no pair of sites is uncorrelated in log|psi|
                t = np.real(lp).reshape((dim,) * int(np.prod(shape)))      # axis order: last site first, irrelevant here
                for a in range(t.ndim):
                    for c in range(a):
                        d = np.diff(np.diff(t, axis=a), axis=c)
                        ctx.ok(np.max(np.abs(d)) > 1e-13, "two sites are uncorrelated in the autoregressive ansatz", axes=(a, c), largest=np.max(np.abs(d)))
                        ctx.count("correlated_pairs")
                if not real_out:
                    t = np.imag(lp).reshape((dim,) * int(np.prod(shape)))
                    ctx.ok(all(np.max(np.abs(np.diff(t, axis=a))) > 1e-13 for a in range(t.ndim)), "the phase does not depend on every site")
            if real_out and wrap == "none":
                ctx.ok(np.all(np.imag(lp) == 0), "real-valued output has an imaginary part")
            smp = jVMC.sampler.MCSampler(psi, shape, int(rng.integers(1 << 30)), logProbFactor=lpf)
            N = 40000 if two_d and L == 3 else 12000
            c, l2, w = smp.sample(numSamples=N)
            x = zoo.flat_ids(np.asarray(c), shape, dim)
            ctx.need(np.all((x >= 0) & (x < len(b))) and np.asarray(c).min() >= 0 and np.asarray(c).max() < dim, "sampled configuration outside the Hilbert space", values=np.unique(np.asarray(c)))
            x = np.concatenate([y.reshape(-1) for y in ctx.comm.allgather(x)])
            if wrap != "sym":
                independent(x, pr, "direct samples are not independent draws")
            cnt = np.bincount(x, minlength=len(b))
            pv, x2, df = zoo.chi2_p(cnt, pr / pr.sum())
            ctx.ok(pv > 1e-10, "direct samples are not distributed as |psi|^(1/kappa)", p_value=pv, chi2=x2, df=df, observed=cnt, expected=cnt.sum() * pr)
            ctx.count("sampled", len(x))
            # a second batch of the same size with other parameters (compiled function is reused)
            psi.set_parameters(jnp.array(p0 + (1.5 if two_d and L == 3 else 0.7) * rng.normal(size=p0.shape)))
            pr = np.exp(np.real(zoo.psi_raw(psi, b)) / lpf)
            ctx.eq(pr.sum(), 1., "autoregressive ansatz is not normalised", rtol=0, atol=1e-9)
            c, l2, w = smp.sample(numSamples=N)
            x = np.concatenate([y.reshape(-1) for y in ctx.comm.allgather(zoo.flat_ids(np.asarray(c), shape, dim))])
            cnt = np.bincount(x, minlength=len(b))
            pv, x2, df = zoo.chi2_p(cnt, pr / pr.sum())
            ctx.ok(pv > 1e-10, "direct samples after a parameter change are not distributed as |psi|^(1/kappa)", p_value=pv, chi2=x2, df=df, observed=cnt, expected=cnt.sum() * pr)
            ctx.count("sampled", len(x))

    # ---- larger lattices: normalisation and marginals by enumeration, beyond that by identities that only the evaluated distribution satisfies
    for i, rng in ctx.cases("large", ctx.n(2, 10)):
        k = i + 2 * ctx.spec["part"] + ctx.seed
        two_d, dim, L, enum = [(False, 2, 12, True), (True, 2, 4, True), (False, 2, 33, False), (True, 2, 6, False), (False, 4, 6, True), (True, 2, 5, False), (False, 3, 17, False)][k % 7]
        cell = ["RNN", "LSTM", "GRU"][k % 3]
        lpf = 1. if dim == 4 else [.5, .5, 1.][int(rng.integers(3))]
        depth = int(rng.integers(1, 3))
        real_out = bool(rng.integers(2)) or dim == 4
        shape = (L, L) if two_d else (L,)
        N = int(np.prod(shape))
        desc = dict(dim2=two_d, cell=cell, depth=depth, lDim=dim, kappa=lpf, L=L, realOut=real_out)
        with ctx.case("large", i, sorted(desc.items()), desc=desc):
            cls = n.RNN2DGeneral if two_d else n.RNN1DGeneral
            psi = jVMC.vqs.NQS(cls(L=L, hiddenSize=3, depth=depth, inputDim=dim, logProbFactor=lpf, realValuedOutput=real_out, cell=cell),
                               seed=int(rng.integers(1 << 30)), batchSize=512)
            psi(jnp.zeros((D, 1) + shape, dtype=np.int32))
            p0 = np.asarray(psi.get_parameters())
            par = p0 + 0.4 * rng.normal(size=p0.shape)
            psi.set_parameters(jnp.array(par))
            smp = jVMC.sampler.MCSampler(psi, shape, int(rng.integers(1 << 30)), logProbFactor=lpf)
            M = 4000
            c, l2, w = smp.sample(numSamples=M)
            x = np.concatenate([np.asarray(y).reshape(-1, N) for y in ctx.comm.allgather(np.asarray(c))])
            m = len(x)
            ctx.need(x.min() >= 0 and x.max() < dim, "sampled configuration outside the Hilbert space", values=np.unique(x))
            one = np.eye(dim)[x]
            if enum:
                b = zoo.basis(shape, dim)
                pr = np.exp(np.real(zoo.psi_raw(psi, b)) / lpf)
                ctx.eq(pr.sum(), 1., "autoregressive ansatz on a larger lattice is not normalised", rtol=0, atol=1e-9)
                ctx.count("normalisations")
                pr /= pr.sum()
                fb = b.reshape(len(b), N)
                pairs = [(a, a + 1) for a in range(N - 1)] + [tuple(int(z) for z in rng.choice(N, size=2, replace=False)) for _ in range(N)]
                for a, q in pairs:
                    want = np.bincount(fb[:, a] * dim + fb[:, q], weights=pr, minlength=dim * dim)
                    cnt = np.bincount(x[:, a] * dim + x[:, q], minlength=dim * dim)
                    pv, x2, df = zoo.chi2_p(cnt, want)
                    ctx.ok(pv > 1e-11, "two-site distribution of the samples on a larger lattice differs from the evaluated one", sites=(a, q), p_value=pv, observed=cnt, expected=m * want)
                    ctx.count("pair_marginals")
            # for two normalised states P, Q of the family: E_P[min(1, Q/P)] = E_Q[min(1, P/Q)], both means of numbers in [0, 1]
            X = x.reshape((-1,) + shape)
            lp0 = np.real(zoo.psi_raw(psi, X)) / lpf
            done = 0
            for t in range(8):
                d = rng.normal(size=par.shape)
                if t % 2:           # a few parameters, changed more
                    d = d * (rng.uniform(size=d.shape) < 0.3) * 2
                eps = [0.3, 0.1, 0.03, 0.01][t // 2]
                psi.set_parameters(jnp.array(par + eps * d))
                lq0 = np.real(zoo.psi_raw(psi, X)) / lpf
                e1 = float(np.mean(np.exp(np.minimum(0., lq0 - lp0))))
                c2 = smp.sample(numSamples=M)[0]
                Y = np.concatenate([np.asarray(z).reshape((-1,) + shape) for z in ctx.comm.allgather(np.asarray(c2))])
                lq1 = np.real(zoo.psi_raw(psi, Y)) / lpf
                psi.set_parameters(jnp.array(par))
                lp1 = np.real(zoo.psi_raw(psi, Y)) / lpf
                e2 = float(np.mean(np.exp(np.minimum(0., lp1 - lq1))))
                ctx.ok(abs(e1 - e2) < 8.5 * 0.5 * np.sqrt(2. / m), "direct samples of two states of a larger lattice do not have the overlap that their amplitudes define", eps=eps, from_first=e1, from_second=e2)
                done += 0.05 < e1 < 0.99
            ctx.count("overlaps", done)
            ctx.count("sampled", m)

    # ---- networks whose sites are independent: sizes far beyond enumeration, every site and every pair of sites judged
    for i, rng in ctx.cases("independent", ctx.n(1, 12)):
        k = i + ctx.spec["part"] + ctx.seed
        two_d, dim, L = [(True, 2, 6), (False, 2, 60), (True, 3, 7), (False, 4, 40), (True, 2, 9), (False, 2, 130)][k % 6]
        cell = ["RNN", "LSTM", "GRU"][int(rng.integers(3))]
        lpf = 1. if dim == 4 else [.5, 1.][int(rng.integers(2))]
        real_out = bool(rng.integers(2))
        shape = (L, L) if two_d else (L,)
        N = int(np.prod(shape))
        desc = dict(dim2=two_d, cell=cell, lDim=dim, kappa=lpf, L=L, realOut=real_out)
        with ctx.case("independent", i, sorted(desc.items()), desc=desc):
            cls = n.RNN2DGeneral if two_d else n.RNN1DGeneral
            psi = jVMC.vqs.NQS(cls(L=L, hiddenSize=2, depth=1, inputDim=dim, logProbFactor=lpf, realValuedOutput=real_out, cell=cell),
                               seed=int(rng.integers(1 << 30)), batchSize=512)
            uni = jnp.array(np.stack([np.full(shape, v) for v in range(dim)]).astype(np.int32))
            X0 = jnp.stack([uni] * D)
            psi(X0)
            z = np.zeros(np.asarray(psi.get_parameters()).shape)
            psi.set_parameters(jnp.array(z))
            base = np.asarray(psi(X0))[0]
            free = []
            for c in range(len(z)):         # parameters that act on their own are the biases of the output
                z[c] = 0.7
                psi.set_parameters(jnp.array(z))
                if np.max(np.abs(np.asarray(psi(X0))[0] - base)) > 1e-6:
                    free.append(c)
                z[c] = 0.
            z[free] = rng.normal(size=len(free)) * 0.8
            psi.set_parameters(jnp.array(z))
            p1 = np.exp(np.real(np.asarray(psi(X0))[0]) / lpf / N)
            T = rng.integers(0, dim, size=(40,) + shape).astype(np.int32)
            want = np.log(p1)[T.reshape(40, -1)].sum(axis=1)
            if not np.allclose(np.real(zoo.psi_raw(psi, T)) / lpf, want, rtol=0, atol=1e-8 * N):
                continue                    # not a product state after all: nothing to compare with
            ctx.eq(p1.sum(), 1., "autoregressive ansatz on a large lattice is not normalised", rtol=0, atol=1e-9)
            smp = jVMC.sampler.MCSampler(psi, shape, int(rng.integers(1 << 30)), logProbFactor=lpf)
            x = np.concatenate([np.asarray(y).reshape(-1, N) for y in ctx.comm.allgather(np.asarray(smp.sample(numSamples=5000)[0]))])
            m = len(x)
            ctx.need(x.min() >= 0 and x.max() < dim, "sampled configuration outside the Hilbert space", values=np.unique(x))
            one = np.eye(dim)[x].reshape(m, N * dim)
            C = one.T @ one
            pp = np.tile(p1, N)
            E = m * np.outer(pp, pp)
            same = np.kron(np.eye(N), np.ones((dim, dim))) > 0
            E[same] = np.kron(np.eye(N), np.diag(m * p1))[same]
            bad = np.abs(C - E) > 9 * np.sqrt(E) + 12
            w = np.argwhere(bad)
            ctx.ok(len(w) == 0, "samples of independent sites on a large lattice are correlated or have the wrong law", pairs=len(w),
                   first=None if not len(w) else dict(sites=[int(v) // dim for v in w[0]], states=[int(v) % dim for v in w[0]], observed=C[tuple(w[0])], expected=E[tuple(w[0])]))
            ctx.count("independent_pairs", N * (N - 1) // 2)
            # two samples have nothing in common
            pe = float(np.sum(p1 ** 2))
            for lag in (1, 2, 7):
                eq = np.mean(x[lag:] == x[:-lag])
                sd = np.sqrt(pe * (1 - pe) / (N * (m - lag))) * 2
                ctx.ok(abs(eq - pe) < 9 * sd + 1e-4, "successive samples on a large lattice are correlated", lag=lag, equal=float(eq), expected=pe)
            ctx.count("sampled", m)
