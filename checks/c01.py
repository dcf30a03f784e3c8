"""C01: Markov-chain sampling targets |psi|^mu: transition-by-transition law and stationary law."""
RULE = ("a case = one sampler history on a random target (random amplitudes and phases, system shape, local dimension, proposer, mu, "
        "layout); every (previous state -> next state) pair of every chain is an event judged against the exact Metropolis "
        "kernel, every long-run sample against |psi|^mu; non-trivial when the target is not uniform or mu=0 on a non-uniform psi")
REQUIRED = {"thermalisation_counted": 1, "improbable_proposals": 10000000, "unnormalised": 3, "large_updates": 20000, "acceptance_checked": 10, "transitions": 200000, "stationary_samples": 100000, "pairs_compared": 1000, "parameter_switch": 3, "joint_transitions": 50000, "markov_transitions": 50000}
ASSUMPTIONS = ["statistical oracles raise an alarm at p-value < 1e-10 per test"]
ALPHA = 1e-10


def SHARDS(tier):
    lay = [(1, 1, "chains"), (2, 1, "chains"), (1, 2, "chains"), (1, 1, "kernel"), (1, 1, "kernel"), (3, 1, "kernel"), (1, 2, "kernel"), (1, 1, "stationary"), (1, 1, "stationary"), (2, 2, "stationary"), (4, 1, "stationary")]
    if tier == "thorough":
        lay = lay + lay + [(1, 3, "kernel"), (2, 3, "stationary"), (3, 1, "chains"), (2, 2, "chains")]
    return [{"fn": f, "dev": d, "ranks": r, "mpi": True, "lay": "%dx%d" % (d, r), "key": "%s%d" % (f, i)} for i, (d, r, f) in enumerate(lay)]


def setup(ctx):
    global np, jax, jnp, jVMC, zoo, mpi
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    import jVMC.mpi_wrapper as mpi
    import zoo


def info_proposer(key, s, info):
    """A symmetric proposal whose move set is given through the proposer argument: add info[j] to a random site j, or subtract it."""
    import jax
    import jax.numpy as jnp
    k1, k2 = jax.random.split(key)
    x = s.reshape((-1,))
    j = jax.random.randint(k1, (), 0, x.shape[0])
    sg = jax.random.bernoulli(k2, 0.5)
    d = jnp.where(sg, info[j], 3 - info[j])
    return x.at[j].set((x[j] + d) % 3).reshape(s.shape)


def q_matrix(kind, shape, lDim, info=None):
    """exact proposal matrix for proposers with a known law"""
    N = int(np.prod(shape))
    n = lDim ** N
    b = zoo.basis(shape, lDim).reshape(n, N)
    q = np.zeros((n, n))
    for i in range(n):
        for j in range(N):
            if kind == "flip":
                moves = [(1, 1.)]
            else:
                moves = [(int(info[j]), .5), (3 - int(info[j]), .5)]
            for d, w in moves:
                t = b[i].copy()
                t[j] = (t[j] + d) % lDim
                q[i, int(zoo.ids(t, lDim))] += w / N
    return q


def metropolis(q, logw):
    a = np.minimum(1., np.exp(np.clip(logw[None, :] - logw[:, None], -700, 0)))
    P = q * a
    P[np.diag_indices_from(P)] = 0
    P[np.diag_indices_from(P)] = 1 - P.sum(axis=1)
    return P


def global_ids(ctx, configs, shape, lDim):
    x = zoo.flat_ids(configs, shape, lDim)
    return np.concatenate([np.asarray(y).reshape(-1) for y in ctx.comm.allgather(x)]) if ctx.size > 1 else x.reshape(-1)


def judge(ctx, prev, nxt, P, what, **w):
    """all transitions of one step against the kernel, stratified by the previous state"""
    n = P.shape[0]
    for s in np.unique(prev):
        c = np.bincount(nxt[prev == s], minlength=n)
        p, x, df = zoo.chi2_p(c, P[s])
        ctx.count("transitions", int(c.sum()))
        ctx.ok(p > ALPHA, what, p_value=p, chi2=x, df=df, from_state=int(s), observed=c, expected=c.sum() * P[s], **w)


def kernel(ctx):
    setup(ctx)
    D, R = ctx.dev, ctx.size
    for i, rng in ctx.cases("kernel", ctx.n(4, 40)):
        kind = ["flip", "info"][int(rng.integers(2))] if i > 0 else "flip"
        shape = [(2,), (3,), (2, 2)][int(rng.integers(3))] if kind == "flip" else [(2,), (1, 2)][int(rng.integers(2))]
        lDim = 2 if kind == "flip" else 3
        N = int(np.prod(shape))
        mu = [2, 1.0, 0, 0.5, 1.7][int(rng.integers(5))]
        tk = ["cpx", "re", "real"][int(rng.integers(3))]
        scale = [0.4, 1.0, 2.0][int(rng.integers(3))]
        k = [1, 1, 2, 3][int(rng.integers(4))]
        therm = [0, 0, 1, 2][int(rng.integers(4))] if i % 2 else 0
        chains = 9000 // (D * R)
        b = zoo.basis(shape, lDim)
        n = len(b)
        init = int(rng.integers(n))
        info = np.array(rng.integers(1, 3, size=N)) if kind == "info" else None
        vals2 = rng.normal(size=n) * scale + (1j * rng.uniform(-3, 3, size=n) if tk != "real" else 0)
        desc = dict(kind=kind, shape=shape, lDim=lDim, mu=mu, table=tk, scale=scale, sweepSteps=k, therm=therm, init=init, chains=chains)
        with ctx.case("kernel", i, sorted(desc.items()), desc=desc):
            psi, vals = zoo.table(jVMC, shape, lDim, tk, rng, scale)
            off = [0., 3e6, -400., -3e6][i % 4]         # the normalisation of the wave function is irrelevant
            vals, vals2 = vals + off, vals2 - off
            psi.set_parameters(jnp.array(zoo.table_vec(vals, tk)))
            ctx.count("unnormalised", int(off != 0))
            smp = jVMC.sampler.MCSampler(psi, shape, jax.random.PRNGKey(int(rng.integers(1 << 30))) if i % 2 else int(rng.integers(1 << 30)),
                                         updateProposer=jVMC.sampler.propose_spin_flip if kind == "flip" else info_proposer,
                                         updateProposerArg=None if info is None else jnp.array(info),
                                         numChains=chains, thermalizationSweeps=therm, sweepSteps=k, initState=jnp.array(b[init]), mu=mu,
                                         numSamples=chains * D * R)
            q = q_matrix(kind, shape, lDim, info)
            M = metropolis(q, mu * np.real(vals))
            steps = k * (1 + therm)         # updates from the last recorded state of a call to the first one of the next
            P = np.linalg.matrix_power(M, steps)
            prev = np.full(chains * D * R, init)
            for step in range(3):
                c, _, _ = smp.sample()
                nxt = global_ids(ctx, c, shape, lDim)
                ctx.need(len(nxt) == len(prev), "number of samples differs from the number of chains", got=len(nxt), want=len(prev))
                judge(ctx, prev, nxt, P, "transition law of a Markov chain step differs from the Metropolis kernel of |psi|^mu", step=step)
                if steps > 1:
                    ac = 1 - np.diag(M)
                    d0 = np.bincount(prev, minlength=n) / len(prev)
                    ex = float(np.mean([d0 @ np.linalg.matrix_power(M, t) @ ac for t in range(steps)]))
                    a = float(np.asarray(smp.acceptance_ratio()).reshape(-1)[0])
                    ctx.ok(abs(a - ex) < 8 * 0.5 / np.sqrt(len(prev)), "reported acceptance ratio differs from the expected fraction of accepted moves", got=a, expected=ex)
                    ctx.count("acceptance_checked")
                if steps == 1:
                    moved = float(np.mean(prev != nxt))
                    ctx.eq(np.asarray(smp.acceptance_ratio()).reshape(-1), [moved], "reported acceptance ratio differs from the fraction of accepted moves", rtol=0, atol=1e-9)
                    ctx.count("acceptance_checked")
                if step == 0:
                    # chains on different devices and ranks must not share randomness
                    y = nxt.reshape((R * D, chains))
                    pe = float(np.sum(P[init] ** 2))
                    for a in range(R * D):
                        for bb in range(a):
                            m = int(np.sum(y[a] == y[bb]))
                            ctx.count("pairs_compared", chains)
                            ctx.ok(abs(m - chains * pe) < 8 * np.sqrt(chains * pe * (1 - pe)) + 3, "chains on different devices/ranks are correlated",
                                   equal=m, of=chains, expected=chains * pe, pair=(a, bb))
                    m = int(np.sum(y[:, 1:] == y[:, :-1]))
                    nn = y[:, 1:].size
                    ctx.count("pairs_compared", nn)
                    ctx.ok(abs(m - nn * pe) < 9 * np.sqrt(nn * pe) + 3, "neighbouring chains are correlated", equal=m, of=nn, expected=nn * pe)
                prev = nxt
            # the wave function changes between two calls: the next step has to follow the new target, from the old states
            psi.set_parameters(jnp.array(zoo.table_vec(vals2, tk)))
            c, _, _ = smp.sample()
            nxt = global_ids(ctx, c, shape, lDim)
            P2 = np.linalg.matrix_power(metropolis(q, mu * np.real(vals2)), steps)
            judge(ctx, prev, nxt, P2, "transition law after a parameter update differs from the kernel of the new |psi|^mu")
            prev = nxt
            # ... and so does the `parameters` argument
            c, _, _ = smp.sample(parameters=jnp.array(zoo.table_vec(vals, tk)))
            nxt = global_ids(ctx, c, shape, lDim)
            judge(ctx, prev, nxt, P, "transition law with explicitly given parameters differs from their |psi|^mu")
            ctx.count("parameter_switch")
            if therm:
                ctx.count("thermalisation_counted")

    # ---- large systems: a product state, for which every site is accepted with its own known probability
    import flax.linen as nn

    class Prod(nn.Module):
        @nn.compact
        def __call__(self, s):
            a = self.param("a", lambda k, sh: jnp.zeros(sh), s.shape)
            return jnp.sum(a * s) + 1j * jnp.sum(jnp.cos(a) * s)

    for i, rng in ctx.cases("large", ctx.n(1, 6)):
        shape = [(70,), (7, 11), (300,), (4, 5, 6)][int(rng.integers(4))]
        N = int(np.prod(shape))
        mu = [2, 1.0, 0.5, 1.97][int(rng.integers(4))]
        chains = int(rng.integers(30, 60))
        T = 24000 // (chains * D * R)
        with ctx.case("large", i, (shape, mu, chains)):
            psi = jVMC.vqs.NQS(Prod(), seed=int(rng.integers(1 << 30)))
            psi(jnp.zeros((D, 1) + shape, dtype=np.int32))
            a = rng.normal(size=shape)
            psi.set_parameters(jnp.array(a.ravel()))
            init = rng.integers(0, 2, size=shape).astype(np.int32)
            smp = jVMC.sampler.MCSampler(psi, shape, int(rng.integers(1 << 30)), updateProposer=jVMC.sampler.propose_spin_flip,
                                         numChains=chains, thermalizationSweeps=0, sweepSteps=1, initState=jnp.array(init), mu=mu)
            c, lp, _ = smp.sample(numSamples=T * chains * D * R)
            c = np.asarray(c).reshape((D, T, chains, N))
            c = np.concatenate([np.broadcast_to(init.ravel(), (D, 1, chains, N)), c], axis=1)
            old, new = c[:, :-1], c[:, 1:]
            ch = old != new
            ctx.ok(np.all(ch.sum(axis=-1) <= 1), "one update changed more than one site", most=int(ch.sum(axis=-1).max()))
            acc = np.minimum(1., np.exp(mu * (1 - 2 * old) * a.ravel()))      # acceptance of a flip of each site
            hits = ch.sum(axis=(0, 1, 2))
            ex, var = (acc / N).sum(axis=(0, 1, 2)), (acc / N * (1 - acc / N)).sum(axis=(0, 1, 2))
            hits, ex, var = [np.sum(ctx.comm.allgather(x), axis=0) if R > 1 else x for x in (hits, ex, var)]
            bad = np.abs(hits - ex) > 9 * np.sqrt(var) + 12
            ctx.ok(not bad.any(), "sites of a large system are not updated with their Metropolis probability", site=int(np.argmax(bad)),
                   observed=hits[bad], expected=ex[bad])
            ctx.ok(abs(hits.sum() - ex.sum()) < 9 * np.sqrt(var.sum()), "number of accepted updates of a large system differs", observed=int(hits.sum()), expected=float(ex.sum()))
            # a chain does not move like its neighbour
            mv = ch.any(axis=-1)
            site = np.where(mv, ch.argmax(axis=-1), -1)
            both = mv[..., 1:] & mv[..., :-1]
            same = int(np.sum(both & (site[..., 1:] == site[..., :-1])))
            ctx.ok(same < both.sum() * 3 / N + 40, "chains of a large system are correlated", same_site=same, of=int(both.sum()))
            ctx.count("large_updates", mv.size)


def chains(ctx):
    """few chains, long recorded trajectories: every chain is a Markov chain with the k-step kernel and all chains are independent"""
    setup(ctx)
    D, R = ctx.dev, ctx.size
    for i, rng in ctx.cases("chains", ctx.n(4, 30)):
        shape, lDim, kind = [((2,), 2, "flip"), ((1,), 3, "info"), ((2, 1), 2, "flip"), ((3,), 2, "flip")][(i + int(ctx.rng("off").integers(4))) % 4]
        N = int(np.prod(shape))
        nch = [2, 3, 5, 1][int(rng.integers(4))] if i else 3
        k = [1, 2, 3][int(rng.integers(3))] if i else 1
        mu = [2, 1.0, 0.5, 1.4][int(rng.integers(4))]
        tk = ["cpx", "re", "real"][int(rng.integers(3))]
        b = zoo.basis(shape, lDim)
        n = len(b)
        init = int(rng.integers(n))
        info = np.array(rng.integers(1, 3, size=N)) if kind == "info" else None
        T = ctx.n(9000, 30000)
        desc = dict(kind=kind, shape=shape, mu=mu, table=tk, sweepSteps=k, init=init, chains=nch, length=T)
        with ctx.case("chains", i, sorted(desc.items()), desc=desc):
            psi, vals = zoo.table(jVMC, shape, lDim, tk, rng, 0.5)
            smp = jVMC.sampler.MCSampler(psi, shape, int(rng.integers(1 << 30)),
                                         updateProposer=jVMC.sampler.propose_spin_flip if kind == "flip" else info_proposer,
                                         updateProposerArg=None if info is None else jnp.array(info),
                                         numChains=nch, thermalizationSweeps=0, sweepSteps=k, initState=jnp.array(b[init]), mu=mu)
            P = np.linalg.matrix_power(metropolis(q_matrix(kind, shape, lDim, info), mu * np.real(vals)), k)
            c, _, _ = smp.sample(numSamples=T * nch * D * R)
            x = zoo.flat_ids(c, shape, lDim)
            x = np.concatenate([np.asarray(y) for y in ctx.comm.allgather(x)]) if R > 1 else np.asarray(x)
            ctx.need(x.shape == (R * D, T * nch), "number of samples differs from the request", got=x.shape)
            x = x.reshape((R * D, T, nch)).transpose((0, 2, 1)).reshape((R * D * nch, T))
            x = np.concatenate([np.full((len(x), 1), init), x], axis=1)
            for a in range(len(x)):
                judge(ctx, x[a, :-1], x[a, 1:], P, "transition law along a recorded chain differs from the Metropolis kernel", chain=a)
                # the past beyond the present state carries no information
                tr = (x[a, :-2] * n + x[a, 1:-1])
                for g in np.unique(tr):
                    cnt = np.bincount(x[a, 2:][tr == g], minlength=n)
                    pv, x2, df = zoo.chi2_p(cnt, P[g % n])
                    ctx.count("markov_transitions", int(cnt.sum()))
                    ctx.ok(pv > ALPHA, "a recorded chain remembers more than its present state", p_value=pv, chain=a, history=(int(g // n), int(g % n)), observed=cnt, expected=cnt.sum() * P[g % n])
            pairs = [(a, bb) for a in range(len(x)) for bb in range(a)]
            for a, bb in pairs:
                g = x[a, :-1] * n + x[bb, :-1]
                t = x[a, 1:] * n + x[bb, 1:]
                for s in np.unique(g):
                    cnt = np.bincount(t[g == s], minlength=n * n)
                    pv, x2, df = zoo.chi2_p(cnt, np.outer(P[s // n], P[s % n]).ravel())
                    ctx.count("joint_transitions", int(cnt.sum()))
                    ctx.ok(pv > ALPHA, "two chains do not move independently", p_value=pv, pair=(a, bb), from_states=(int(s // n), int(s % n)))


    # ---- moves of vanishing probability never happen: millions of proposals out of a state that holds all the weight
    for i, rng in ctx.cases("rejections", ctx.n(1, 4)):
        mu = [2, 1.0, 0.5][int(rng.integers(3))]
        nch, T, k = 1500 // (D * R), 20, 300
        with ctx.case("rejections", i, (mu, nch)):
            top = int(rng.integers(4))
            v = np.full(4, -float(rng.uniform(60, 500)) / mu)
            v[top] = 0.
            psi, _ = zoo.table(jVMC, (2,), 2, "re", rng, values=v + 0j)
            smp = jVMC.sampler.MCSampler(psi, (2,), int(rng.integers(1 << 30)), updateProposer=jVMC.sampler.propose_spin_flip, numChains=nch,
                                         thermalizationSweeps=1, sweepSteps=k, initState=jnp.array(zoo.basis((2,), 2)[top]), mu=mu)
            c, _, _ = smp.sample(numSamples=T * nch * D * R)
            x = global_ids(ctx, c, (2,), 2)
            ctx.ok(np.all(x == top), "a move of vanishing probability was accepted", states=np.bincount(x, minlength=4), expected=top)
            a = np.asarray(smp.acceptance_ratio()).reshape(-1)
            ctx.ok(float(a[0]) == 0., "moves of vanishing probability were accepted", acceptance_ratio=float(a[0]), proposals=(T + 1) * nch * D * R * k)
            ctx.count("improbable_proposals", (T + 1) * nch * k * D)


def stationary(ctx):
    setup(ctx)
    D, R = ctx.dev, ctx.size
    for i, rng in ctx.cases("stationary", ctx.n(4, 40)):
        prop = ["flip", "Z2", "zeroMag", "POVM"][(i + int(ctx.rng("off").integers(4))) % 4]
        lDim = 4 if prop == "POVM" else 2
        shape = {"flip": [(3,), (2, 2), (4,)], "Z2": [(3,), (2, 2)], "zeroMag": [(4,), (2, 2)], "POVM": [(2,), (1, 2)]}[prop][int(rng.integers(2))]
        # mu = 0 accepts every flip, so the chain is periodic and has no long-run law: its kernel is judged above
        mu, lpf = ([2, 1.0, 0.6, 1.5][int(rng.integers(4))], 0.5) if prop != "POVM" else (1.0, 1.0)
        tk = "real" if prop == "POVM" else ["cpx", "re"][int(rng.integers(2))]
        scale = 0.7
        N = int(np.prod(shape))
        b = zoo.basis(shape, lDim)
        n = len(b)
        flatb = b.reshape(n, N)
        allowed = np.ones(n, bool) if prop != "zeroMag" else flatb.sum(axis=1) * 2 == N
        init = int(rng.choice(np.where(allowed)[0]))
        chains = [12000 // (D * R), 1500 // (D * R)][int(rng.integers(2))]
        per = 1 if chains * D * R > 4000 else 4
        therm, sweep = 12, (6 if per > 1 else 5) * N
        desc = dict(prop=prop, shape=shape, mu=mu, lpf=lpf, table=tk, init=init, chains=chains, per=per)
        with ctx.case("stationary", i, sorted(desc.items()), desc=desc):
            f = {"flip": jVMC.sampler.propose_spin_flip, "Z2": jVMC.sampler.propose_spin_flip_Z2,
                 "zeroMag": jVMC.sampler.propose_spin_flip_zeroMag, "POVM": jVMC.sampler.propose_POVM_outcome}[prop]
            psi, vals = zoo.table(jVMC, shape, lDim, tk, rng, scale)
            smp = jVMC.sampler.MCSampler(psi, shape, int(rng.integers(1 << 30)), updateProposer=f, numChains=chains,
                                         thermalizationSweeps=therm, sweepSteps=sweep, initState=jnp.array(b[init]), mu=mu, logProbFactor=lpf)
            w = np.exp(mu * np.real(vals)) * allowed
            pi = w / w.sum()
            for rep in range(2):
                c, logPsi, p = smp.sample(numSamples=chains * D * R * per)
                x = global_ids(ctx, c, shape, lDim)
                ctx.need(np.all((x >= 0) & (x < n)), "sampled configuration outside the Hilbert space", ids=x)
                cnt = np.bincount(x, minlength=n)
                pv, x2, df = zoo.chi2_p(cnt, pi)
                ctx.count("stationary_samples", int(cnt.sum()))
                ctx.ok(pv > ALPHA, "long-run samples are not distributed as |psi|^mu", p_value=pv, chi2=x2, df=df, observed=cnt, expected=cnt.sum() * pi)
                # importance weights: weighted average of an arbitrary function estimates the |psi|^(1/kappa) average
                g = rng.normal(size=n)
                target = np.exp(np.real(vals) / lpf) * allowed
                target /= target.sum()
                pw = np.concatenate([np.asarray(y).reshape(-1) for y in ctx.comm.allgather(np.asarray(p))])
                est = float(np.sum(pw * g[x]))
                ex = float(np.sum(target * g))
                ratio = target / np.where(pi > 0, pi, 1)
                sd = np.sqrt(np.sum(pi * (ratio * (g - ex)) ** 2) / len(x))
                ctx.ok(abs(est - ex) < 10 * sd * (1 if per == 1 else 1.6) + 30. / len(x), "weighted sample mean does not estimate the |psi|^(1/kappa) average",
                       estimate=est, exact=ex, standard_error=sd)
                a = float(np.asarray(smp.acceptance_ratio()).reshape(-1)[0])
                ctx.ok(0 < a <= 1, "acceptance ratio outside (0,1]", a=a)
