"""C03: every sample set is complete and self-consistent: count, coefficients, normalised importance weights, untouched parameters."""
RULE = ("a case = a history of sample() calls on one sampler (random ansatz, mu, kappa, chains, multipleOf, requested numbers, explicit "
        "parameters, key resets, amplitude shifts) on one device x rank layout; every call is judged against the returned data's own contract; "
        "non-trivial when more than one distinct configuration was sampled")
REQUIRED = {"sample_calls": 60, "weights_judged": 2000, "generator_calls": 10, "param_calls": 10}


def SHARDS(tier):
    lay = [(1, 1), (1, 1), (1, 1), (3, 1), (2, 2), (1, 3), (4, 1)]
    if tier == "thorough":
        lay = lay * 2 + [(3, 2), (1, 5)]
    return [{"fn": "run", "dev": d, "ranks": r, "mpi": True, "lay": "%dx%d" % (d, r), "key": "L%d" % i} for i, (d, r) in enumerate(lay)]


GEN = ["RNN", "LSTM", "GRUpovm", "RNN2d", "SymRNN"]
MC = ["RBM", "CpxRBM", "CNN2d", "TwoNets", "Sym", "table", "tablepovm"]


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    import jVMC.mpi_wrapper as mpi
    import zoo
    D, R = ctx.dev, ctx.size

    def gath(x):
        x = np.asarray(x)
        return np.concatenate([np.asarray(y) for y in ctx.comm.allgather(x.reshape((-1,) + x.shape[2:]))])

    def build(name, rng):
        if name == "table":
            psi, v = zoo.table(jVMC, (4,), 2, "cpx", rng, 1.0)
            return psi, (4,), 2
        if name == "tablepovm":
            psi, v = zoo.table(jVMC, (3,), 4, "real", rng, 1.0)
            return psi, (3,), 4
        if name == "SymRNN":
            net = jVMC.nets.RNN1DGeneral(L=4, hiddenSize=3, depth=1)
            psi = jVMC.vqs.NQS(net, orbit=jVMC.util.symmetries.get_orbit_1D(4, "translation"), avgFun=jVMC.nets.avgFun_Coefficients_Sep,
                               seed=int(rng.integers(1 << 30)))
            psi(jnp.zeros((D, 1, 4), dtype=np.int32))
            return psi, (4,), 2
        return zoo.make_psi(jVMC, name, rng, spread=0.3, batchSize=[1000, 7][int(rng.integers(2))])

    for i, rng in ctx.cases("history", ctx.n(6, 40)):
        gen = bool(i % 2)
        pool = GEN if gen else MC
        name = pool[(i // 2 + 3 * ctx.shard + ctx.seed) % len(pool)]
        chains = [1, 2, 3, 4, 5, 6, 7, 4, 6][int(rng.integers(9))]
        mu = [2, 1., 0., 0.7, 1.5, 1.97, 0.05][int(rng.integers(7))]
        lpf = [0.5, 0.5, 1.0, 0.7][int(rng.integers(4))] if not gen else 0.5
        if name in ("tablepovm", "GRUpovm"):
            lpf, mu = 1.0, 1.0
        seed = int(rng.integers(1 << 30))
        defn = int(rng.integers(3, 40))
        desc = dict(ansatz=name, chains=chains, mu=mu, kappa=lpf, default=defn, layout="%dx%d" % (D, R))
        with ctx.case("history", i, sorted(desc.items()), desc=desc):
            psi, shape, lDim = build(name, rng)
            kw = dict(numChains=chains, mu=mu, logProbFactor=lpf, numSamples=defn, sweepSteps=3, thermalizationSweeps=2)
            prop = None
            if not gen:
                prop = jVMC.sampler.propose_POVM_outcome if lDim == 4 else jVMC.sampler.propose_spin_flip
            mk = lambda: jVMC.sampler.MCSampler(psi, shape, seed if i % 3 == 0 else jax.random.PRNGKey(seed), updateProposer=prop, **kw)
            smp = mk()
            last = None
            for call in range(ctx.n(3, 6)):
                req = [None, int(rng.integers(1, 60)), int(rng.integers(1, 10)), int(rng.integers(20, 200)), int(rng.integers(1000, 6000))][int(rng.integers(5))]
                mult = [1, 2, 3, 4, 5, 6][int(rng.integers(6))]
                cur = np.asarray(psi.get_parameters()).copy()
                usep = cur
                args = {}
                if call == 1 or rng.integers(3) == 0:
                    usep = cur + 0.3 * rng.normal(size=cur.shape)
                    args["parameters"] = jnp.array(usep)
                if rng.integers(4) == 0:
                    defn = int(rng.integers(3, 40))
                    smp.set_number_of_samples(defn)
                want = defn if req is None else req
                if req is not None:
                    args["numSamples"] = req
                c, lp, p = smp.sample(multipleOf=mult, **args) if mult > 1 else smp.sample(**args)
                ctx.count("sample_calls")
                if gen:
                    ctx.count("generator_calls")
                info = dict(call=call, requested=want, multipleOf=mult, explicit_parameters="parameters" in args)
                ctx.eq(np.asarray(psi.get_parameters()), cur, "sampling changed the variational parameters", rtol=0, atol=0, **info)
                c_, lp_, p_ = np.asarray(c), np.asarray(lp), np.asarray(p)
                ctx.need(c_.ndim == 2 + len(shape) and c_.shape[0] == D and c_.shape[2:] == tuple(shape), "configurations have the wrong shape", got=c_.shape, **info)
                ctx.need(lp_.shape == c_.shape[:2] and p_.shape == c_.shape[:2], "coefficients/weights do not match the configurations", got=(lp_.shape, p_.shape), **info)
                n = c_.shape[1]
                tot = sum(ctx.comm.allgather(D * n))
                ctx.ok(tot >= want, "fewer samples than requested", total=tot, **info)
                ctx.same(int(smp.get_last_number_of_samples()), tot, "reported number of samples differs from the samples returned", **info)
                unit = mult if gen else int(np.lcm(chains, mult))
                ctx.ok(n % mult == 0, "number of samples per device is not a multiple of multipleOf", n=n, **info)
                ctx.ok(tot < want + R * D * unit, "more samples than the rounding to full chains explains", total=tot, unit=unit, **info)
                ctx.ok(np.all((c_ >= 0) & (c_ < lDim)), "configuration outside the Hilbert space", values=np.unique(c_), **info)
                # coefficients belong to the configurations and to the parameters that were asked for
                psi.set_parameters(jnp.array(usep))
                raw = zoo.psi_raw(psi, c_.reshape((-1,) + tuple(shape))).reshape(lp_.shape)
                psi.set_parameters(jnp.array(cur))
                ctx.eq(np.exp(1j * np.imag(lp_)), np.exp(1j * np.imag(raw)), "phase of a returned coefficient differs from psi(config)", rtol=0, atol=1e-7, **info)
                ctx.eq(np.real(lp_), np.real(raw), "returned log-amplitude differs from psi(config)", rtol=1e-9, atol=1e-8, **info)
                if "parameters" in args:
                    ctx.count("param_calls")
                # weights
                P, LP = gath(p), gath(lp)
                ctx.ok(np.all(np.isfinite(P)) and np.all(P >= 0), "weights are not finite non-negative numbers", p=P, **info)
                ctx.eq(P.sum(), 1., "weights are not normalised over all devices and ranks", rtol=0, atol=1e-10, **info)
                e = np.zeros(len(P)) if gen else (1. / lpf - mu) * np.real(LP)
                w = np.exp(e - e.max())
                ctx.eq(P, w / w.sum(), "weights are not |psi|^(1/kappa-mu), normalised", rtol=0, atol=1e-10, **info)
                ctx.count("weights_judged", len(P))
                # successive calls and different ranks/devices do not replay the same random numbers
                X = gath(c).reshape(tot, -1)
                if last is not None and len(last) == len(X) and len(X) >= 40 and len(np.unique(X, axis=0)) > 4:
                    ctx.ok(np.any(last != X), "two successive calls returned the same samples", **info)
                    ctx.count("freshness")
                last = X
                parts = [np.asarray(y) for y in ctx.comm.allgather(c_)]
                blocks = [b[d].reshape(b.shape[1], int(np.prod(shape))) for b in parts for d in range(D)]
                for a in range(len(blocks)):
                    for b2 in range(a):
                        if len(blocks[a]) == len(blocks[b2]) >= 40 and len(np.unique(blocks[a], axis=0)) > 4:
                            ctx.ok(np.any(blocks[a] != blocks[b2]), "two devices/ranks returned the same samples", blocks=(a, b2), **info)
                            ctx.count("independence")
                # the wave function moves on
                if rng.integers(2):
                    psi.set_parameters(jnp.array(cur + 0.1 * rng.normal(size=cur.shape)))
            # determinism: a fresh sampler with the same key replays the same history; devices and ranks stay independent
            k2 = jax.random.PRNGKey(seed + 1)
            m = 60 * D * R
            s2 = mk()
            s2.set_random_key(k2)
            a = np.asarray(s2.sample(numSamples=m)[0])
            if gen:
                s2.set_random_key(k2)
                b = s2.sample(numSamples=m)[0]
            else:
                s3 = mk()
                s3.set_random_key(k2)
                b = s3.sample(numSamples=m)[0]
            ctx.eq(a, np.asarray(b), "the same random key does not reproduce the same samples", rtol=0, atol=0)
            ctx.count("determinism")
            parts = [np.asarray(y) for y in ctx.comm.allgather(a)]
            blocks = [x[d].reshape(x.shape[1], int(np.prod(shape))) for x in parts for d in range(D)]
            for a in range(len(blocks)):
                for b2 in range(a):
                    if len(np.unique(blocks[a], axis=0)) > 4:
                        ctx.ok(blocks[a].shape != blocks[b2].shape or np.any(blocks[a] != blocks[b2]), "two devices/ranks share random numbers after set_random_key", blocks=(a, b2))
                        ctx.count("independence")

    # amplitude offsets are physically irrelevant and must not spoil the weights
    for i, rng in ctx.cases("shift", ctx.n(2, 10)):
        sh = [400., -400., 900., -900.][int(rng.integers(4))]
        mu = [0., 1., 0.5, 2][int(rng.integers(4))]
        with ctx.case("shift", i, ("shift", sh, mu), desc={"log-amplitude shift": sh, "mu": mu}):
            psi, v = zoo.table(jVMC, (3,), 2, "cpx", rng, 1.0)
            psi.set_parameters(jnp.array(zoo.table_vec(v + sh, "cpx")))
            s = jVMC.sampler.MCSampler(psi, (3,), int(rng.integers(1 << 30)), updateProposer=jVMC.sampler.propose_spin_flip, numChains=5, mu=mu)
            c, lp, p = s.sample(numSamples=40)
            LP, P = gath(lp), gath(p)
            e = (2. - mu) * np.real(LP)
            w = np.exp(e - e.max())
            ctx.eq(P, w / w.sum(), "weights are not |psi|^(1/kappa-mu), normalised", rtol=0, atol=1e-9)
            ctx.count("weights_judged", len(P))

    with ctx.case("reject", 0, "reject"):
        psi, _ = zoo.table(jVMC, (2,), 2, "cpx", ctx.rng("rej"))
        for bad in (-0.1, 2.5):
            ctx.raises(ValueError, lambda: jVMC.sampler.MCSampler(psi, (2,), 1, updateProposer=jVMC.sampler.propose_spin_flip, mu=bad), "mu outside [0,2] accepted")
        ctx.raises(RuntimeError, lambda: jVMC.sampler.MCSampler(psi, (2,), 1), "MCMC sampler without update proposer accepted")
