"""C02: update proposals stay in the space they are made for, are symmetric and connect it."""
RULE = ("a case = one proposer on one lattice shape; every proposed configuration is an event: closure is judged exactly on each, "
        "symmetry q(s->s') = q(s'->s) and connectivity on the full empirical proposal matrix; non-trivial when the lattice has more than one site")
REQUIRED = {"uniform_sites": 500, "proposals": 200000, "sym_pairs": 100}
ASSUMPTIONS = ["statistical oracles raise an alarm at more than 8 standard deviations"]


def SHARDS(tier):
    n = 8
    return [{"fn": "run", "dev": 1, "ranks": 1, "part": k, "parts": n, "key": "p%d" % k} for k in range(n)]


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    import zoo
    S = jVMC.sampler
    small = [("flip", sh) for sh in [(1,), (3,), (4,), (2, 2), (1, 3), (2, 1, 2)]] + \
            [("Z2", sh) for sh in [(1,), (3,), (2, 2), (4,), (5,), (7,)]] + \
            [("zeroMag", sh) for sh in [(2,), (4,), (2, 2), (1, 4), (2, 3), (6,), (8,), (10,), (2, 5)]] + \
            [("POVM", sh) for sh in [(1,), (2,), (1, 2), (3,), (2, 2)]] + [("flip", sh) for sh in [(5,), (2, 3)]]
    f = {"flip": S.propose_spin_flip, "Z2": S.propose_spin_flip_Z2, "zeroMag": S.propose_spin_flip_zeroMag, "POVM": S.propose_POVM_outcome}

    for i, (name, shape) in enumerate(small):
        if i % ctx.spec["parts"] != ctx.spec["part"] or (ctx.only and ctx.only != ["small", i]):
            continue
        rng = ctx.rng("small", i)
        lDim = 4 if name == "POVM" else 2
        N = int(np.prod(shape))
        b = zoo.basis(shape, lDim)
        n = len(b)
        ok = np.ones(n, bool) if name != "zeroMag" else b.reshape(n, N).sum(axis=1) * 2 == N
        st = np.where(ok)[0]
        K = ctx.n(3000, 30000)
        with ctx.case("small", i, (name, shape), nontrivial=N > 1, desc={"proposer": name, "shape": shape}):
            g = jax.jit(jax.vmap(jax.vmap(lambda k, s: f[name](k, s, None), in_axes=(0, None)), in_axes=(0, 0)))
            keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(1 << 30))), len(st) * K).reshape((len(st), K, -1))
            out = np.asarray(g(keys, jnp.array(b[st])))
            ctx.count("proposals", len(st) * K)
            ctx.need(out.shape == (len(st), K) + tuple(shape), "proposal changes the shape of a configuration", got=out.shape)
            ctx.ok(out.min() >= 0 and out.max() < lDim, "proposal leaves the local Hilbert space", values=np.unique(out))
            ctx.need(np.all(out == np.round(out)), "proposal is not integer valued")
            for dt in (np.int32, np.int64, np.int8):
                o1 = f[name](keys[0, 0], jnp.array(b[st[0]], dtype=dt), None)
                ctx.ok(o1.dtype == dt and o1.shape == tuple(shape), "proposal changes the type or shape of a configuration", given=np.dtype(dt).name, got=str(o1.dtype), shape=o1.shape)
            ids = zoo.flat_ids(out, shape, lDim)
            ctx.need(np.all((ids >= 0) & (ids < n)) and np.all(ok[ids]), "proposal leaves the sector it has to conserve",
                     bad=out.reshape((-1, N))[~ok[np.clip(ids.reshape(-1), 0, n - 1)]][:3])
            q = np.zeros((n, n))
            for a, s in enumerate(st):
                q[s] += np.bincount(ids[a], minlength=n)
            tot = np.triu(q + q.T, 1)
            pa, pc = np.nonzero(tot)
            ctx.count("sym_pairs", len(pa))
            dev = np.abs(q[pa, pc] - q[pc, pa]) / (8 * np.sqrt(tot[pa, pc] + 1) + 3)
            if len(pa):
                w = int(np.argmax(dev))
                ctx.ok(dev[w] < 1, "proposal is not symmetric", s=b[pa[w]], t=b[pc[w]], forward=q[pa[w], pc[w]], backward=q[pc[w], pa[w]], of=K)
                # all pairs together: sum (q_ab - q_ba)^2 / (q_ab + q_ba) has one unit per pair
                big = tot[pa, pc] >= 10
                if np.any(big):
                    x2 = np.sum((q[pa, pc] - q[pc, pa])[big] ** 2 / tot[pa, pc][big])
                    nb = int(np.sum(big))
                    from scipy.stats import chi2
                    ctx.ok(chi2.sf(x2, nb) > 1e-13, "proposals are not symmetric (all pairs together)", chi2=x2, pairs=nb)
            # connectivity of the sector (N = 1 included)
            reach = (q[np.ix_(st, st)] > 0) | np.eye(len(st), dtype=bool)
            for _ in range(10):
                reach = (reach.astype(np.float32) @ reach.astype(np.float32)) > 0
            ctx.ok(np.all(reach), "proposals do not connect the whole sector", states=len(st))
            if name == "flip":
                d = np.sum(out.reshape((len(st), K, N)) != b[st].reshape((len(st), 1, N)), axis=-1)
                ctx.ok(np.all(d == 1), "a spin-flip proposal does not flip exactly one spin", distances=np.unique(d))
                for a in st:
                    nb = [int(zoo.ids(np.where(np.arange(N) == j, 1 - b[a].reshape(-1), b[a].reshape(-1)), 2)) for j in range(N)]
                    ctx.ok(np.all(np.abs(q[a, nb] - K / N) < 8 * np.sqrt(K / N) + 3), "spin-flip sites are not chosen uniformly", s=b[a], counts=q[a, nb])
            if name == "POVM":
                d = np.sum(out.reshape((len(st), K, N)) != b[st].reshape((len(st), 1, N)), axis=-1)
                ctx.ok(np.all(d == 1), "a POVM proposal does not change exactly one outcome", distances=np.unique(d))
                for a in st:
                    nb = [int(zoo.ids(np.where(np.arange(N) == j, (b[a].reshape(-1) + e) % 4, b[a].reshape(-1)), 4)) for j in range(N) for e in (1, 2, 3)]
                    m = K / (3 * N)
                    ctx.ok(np.all(np.abs(q[a, nb] - m) < 8 * np.sqrt(m) + 3), "POVM outcomes are not chosen uniformly", s=b[a], counts=q[a, nb])
            if name == "Z2" and N > 2:
                d = np.sum(out.reshape((len(st), K, N)) != b[st].reshape((len(st), 1, N)), axis=-1)
                ctx.ok(np.all((d == 1) | (d == N - 1)), "a Z2 proposal is neither a single flip nor its global inverse", distances=np.unique(d))
                ctx.ok(np.any(d == N - 1) and np.any(d == 1), "the Z2 proposal never uses one of its two moves", distances=np.unique(d))
            if name == "zeroMag" and N > 4:
                d = np.sum(out.reshape((len(st), K, N)) != b[st].reshape((len(st), 1, N)), axis=-1)
                ctx.ok(np.all(np.isin(d, [2, N - 2])), "a zero-magnetization proposal is neither one exchange nor its global inverse", distances=np.unique(d))

    # larger lattices: closure on random start configurations
    for i, rng in ctx.cases("large", ctx.n(4, 40)):
        name = ["flip", "Z2", "zeroMag", "POVM"][(i + ctx.spec["part"]) % 4]
        shape = [(12,), (4, 5), (6, 6), (3, 2, 4), (30,), (134,), (12, 12), (300,)][(i + int(rng.integers(2)) * 4 + ctx.spec["part"]) % 8]
        N = int(np.prod(shape))
        lDim = 4 if name == "POVM" else 2
        B, K = 40, 100 + 5 * N
        if name == "zeroMag":
            s0 = np.array([rng.permutation(np.arange(N) % 2) for _ in range(B)])
        else:
            s0 = rng.integers(0, lDim, size=(B, N))
        with ctx.case("large", i, (name, shape), desc={"proposer": name, "shape": shape}):
            g = jax.jit(jax.vmap(jax.vmap(lambda k, s: f[name](k, s, None), in_axes=(0, None)), in_axes=(0, 0)))
            keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(1 << 30))), B * K).reshape((B, K, -1))
            out = np.asarray(g(keys, jnp.array(s0.reshape((B,) + shape), dtype=np.int32))).reshape((B, K, N))
            ctx.count("proposals", B * K)
            ctx.ok(out.min() >= 0 and out.max() < lDim, "proposal leaves the local Hilbert space", values=np.unique(out))
            d = np.sum(out != s0[:, None, :], axis=-1)
            if name == "flip":
                ctx.ok(np.all(d == 1), "a spin-flip proposal does not flip exactly one spin", distances=np.unique(d))
            if name == "POVM":
                ctx.ok(np.all(d == 1), "a POVM proposal does not change exactly one outcome", distances=np.unique(d))
            if name == "Z2":
                ctx.ok(np.all((d == 1) | (d == N - 1)), "a Z2 proposal is neither a single flip nor its global inverse", distances=np.unique(d))
            if name == "zeroMag":
                ctx.ok(np.all(out.sum(axis=-1) * 2 == N), "magnetization is not conserved", sums=np.unique(out.sum(axis=-1)))
                ctx.ok(np.all(np.isin(d, [2, N - 2])), "a zero-magnetization proposal is neither one exchange nor its global inverse", distances=np.unique(d))
            # every site takes part, equally often (an exchange: among the occupied and the empty sites)
            ch = (out != s0[:, None, :]) if name in ("flip", "POVM") else (out != s0[:, None, :]) ^ (d > N // 2)[:, :, None]
            for v in ([None] if name != "zeroMag" else [0, 1]):
                own = np.ones((B, N)) if v is None else (s0 == v).astype(float)
                hits = (ch * own[:, None, :]).sum(axis=(0, 1))
                pv, x2, df = zoo.chi2_p(hits, (own / own.sum(axis=1, keepdims=True)).mean(axis=0))
                ctx.ok(pv > 1e-11, "sites of a large lattice are not chosen uniformly", p_value=pv, hits=hits)
                ctx.count("uniform_sites", N)
            if name == "POVM":
                j = ch.argmax(axis=-1)
                step = (np.take_along_axis(out, j[..., None], axis=-1)[..., 0] - np.take_along_axis(np.broadcast_to(s0[:, None, :], out.shape), j[..., None], axis=-1)[..., 0]) % 4
                pv, x2, df = zoo.chi2_p(np.bincount(step.ravel(), minlength=4)[1:], np.ones(3) / 3)
                ctx.ok(pv > 1e-11, "POVM outcomes of a large lattice are not chosen uniformly", p_value=pv)
            ctx.ok(np.all(np.any(out != s0[:, None, :], axis=(0, 1))), "some lattice sites are never updated")
