"""C21: results do not depend on what the objects computed before: long mixed histories on shared ansaetze, operators and samplers against stateless references."""
RULE = ("a case = one random history of parameter changes, evaluations, gradients, local estimators (changing times, sample numbers, later added terms), samplings, updates and "
        "device switches on two ansaetze that share a network and two operators that share terms; every result is recomputed without state; non-trivial by construction")
REQUIRED = {"operations": 120, "parameter_changes": 25, "evaluations": 25, "gradients": 10, "estimators": 25, "term_added_later": 4, "device_switch": 3, "exact_samples": 5, "mc_samples": 5, "updates": 3, "foreign_parameters": 2}


def SHARDS(tier):
    out = [{"fn": "run", "dev": d, "key": "h%d" % k} for k, d in enumerate((1, 2, 3))] + [{"fn": "run", "dev": 2, "ranks": 2, "mpi": True, "key": "hm"}]
    if tier == "thorough":
        out += [{"fn": "run", "dev": d, "key": "t%d" % k} for k, d in enumerate((1, 2, 4))]
    return out


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    import jVMC.global_defs as gd
    from checks.c10 import plain
    from checks.c15 import gradients_of, all_data
    from lib import zoo, tv
    alldev = list(gd.devices())
    names = ["CpxRBM", "TwoNets", "FFN", "Sym", "NonHolo", "RNN"]

    for i, rng in ctx.cases("history", ctx.n(4, 25), cap=ctx.n(75, 700)):
        name = names[(i + 2 * ctx.dev) % len(names)]
        hist = []
        with ctx.case("history", i, (name, ctx.spec["key"], i), desc={"ansatz": name}):
            devs = alldev
            D = len(devs)

            def fresh():
                ctor, shape, _ = zoo.lib_nets(jVMC)[name]
                net = ctor()
                ps = []
                for k in range(2):      # both ansaetze use the very same network object
                    q = jVMC.vqs.NQS(net, batchSize=[7, 1000][k], seed=k + 1)
                    q(jnp.zeros((D, 1) + shape, dtype=np.int32))
                    q.set_parameters(q.get_parameters() + 0.4 * jnp.array(rng.normal(size=q.get_parameters().shape)))
                    ps.append(q)
                return ps, shape
            psis, shape = fresh()
            N = int(np.prod(shape))
            full = zoo.basis(shape)
            terms = [op.Sx(0), op.Sz(1), op.Sy(2)]
            # two operators that share terms
            ops = [[op.BranchFreeOperator(ElocBatchSize=b), [], [], []] for b in (-1, 3)]

            def add(O, v, w, locs):
                if w:
                    O[0].add(op.scal_opstr(lambda t, v=v, w=w: v + w * jnp.cos(t), tuple(locs)))
                else:
                    O[0].add(op.scal_opstr(v, tuple(locs)))
                O[1].append([plain(o) for o in locs])
                O[2].append(lambda t, v=v, w=w: v + w * np.cos(t))
                O[3].append((v, w, tuple(locs)))
            for O in ops:
                add(O, 0.7, 0., (terms[0],))
                add(O, -0.4, 0.3, (terms[1], op.Sz((2 + len(O[1])) % N)))
            samplers = [jVMC.sampler.ExactSampler(q, shape) for q in psis]
            mcs = [jVMC.sampler.MCSampler(q, shape, jax.random.PRNGKey(int(rng.integers(1 << 30))), updateProposer=jVMC.sampler.propose_spin_flip, numChains=2,
                                          numSamples=8, thermalizationSweeps=1, sweepSteps=N) for q in psis]
            eqs = [jVMC.util.TDVP(samplers[0], rhsPrefactor=1., makeReal="real", pinvTol=1., pinvCutoff=1e-2), jVMC.util.MinSR(samplers[1], pinvTol=1e-4)]
            known = [np.asarray(q.get_parameters()) for q in psis]

            def ham(O, t):
                return tv.dense(O[1], O[2], N, t)

            for step in range(ctx.n(20, 40)):
                k = str(rng.choice(["set", "upd", "tree", "eval", "grad", "oloc", "oloc", "add", "exact", "mc", "tdvp", "switch", "foreign"],
                                   p=[.12, .05, .03, .14, .07, .15, .1, .06, .07, .07, .06, .05, .03]))
                a = int(rng.integers(2))
                psi, O, t = psis[a], ops[int(rng.integers(2))], round(float(rng.uniform(0, 3)), 3)
                B = int(rng.choice([1, 2, 5, 8]))
                cf = rng.integers(0, 2, size=(D, B) + shape).astype(np.int32)
                hist.append((k, a, B))
                w = {"history": str(hist)}
                if k == "set":
                    known[a] = known[a] + 0.2 * rng.normal(size=known[a].shape)
                    psi.set_parameters(jnp.array(known[a]))
                    ctx.count("parameter_changes")
                elif k == "upd":
                    d = 0.2 * rng.normal(size=known[a].shape)
                    known[a] = known[a] + d
                    psi.update_parameters(jnp.array(d))
                    ctx.count("parameter_changes")
                elif k == "tree":
                    other = psis[1 - a]
                    psi.params = jax.tree_util.tree_map(lambda x: x, other.params)
                    known[a] = known[1 - a].copy()
                    ctx.count("parameter_changes")
                elif k == "eval":
                    got = np.asarray(psi(jnp.array(cf))).reshape(-1)
                    ctx.eq(got, zoo.psi_raw(psi, cf.reshape((-1,) + shape)), "evaluation depends on the history", atol=1e-10, **w)
                    ctx.count("evaluations")
                elif k == "grad":
                    got = np.asarray(psi.gradients(jnp.array(cf)))
                    ref = gradients_of(psi, cf.reshape((-1,) + shape), D)
                    ctx.eq(got.reshape(ref.shape), ref, "gradient depends on the history", rtol=1e-8, atol=1e-9, **w)
                    ctx.count("gradients")
                elif k == "oloc":
                    lp = zoo.psi_raw(psi, full)
                    E = np.sum(ham(O, t) * np.exp(lp[None, :] - lp[:, None]), axis=1)
                    got = np.asarray(O[0].get_O_loc(jnp.array(cf), psi, psi(jnp.array(cf)) if rng.integers(2) else None, t))
                    ref = E[zoo.flat_ids(cf, shape)]
                    ctx.eq(got.reshape(ref.shape), ref, "local estimator depends on the history", rtol=1e-8, atol=1e-8, t=t, **w)
                    ctx.count("estimators")
                elif k == "add":
                    add(O, round(float(rng.normal()), 3), round(float(rng.normal()), 3) * int(rng.integers(2)), (terms[int(rng.integers(3))], op.Sx(int(rng.integers(N)))) if rng.integers(2) else (op.Sz(int(rng.integers(N))),))
                    ctx.count("term_added_later")
                elif k == "exact":
                    c, l, p = samplers[a].sample()
                    lp = zoo.psi_raw(psi, full)
                    pr = np.exp(2 * (lp.real - lp.real.max()))
                    c, p = all_data(ctx, c, p, shape)
                    got = np.zeros(len(full))
                    np.add.at(got, zoo.flat_ids(c, shape), p)
                    ctx.eq(got, pr / pr.sum(), "exact probabilities depend on the history", atol=1e-10, **w)
                    ctx.count("exact_samples")
                elif k == "mc":
                    n = int(rng.choice([4, 9, 16]))
                    c, l, p = mcs[a].sample(numSamples=n) if rng.integers(2) else mcs[a].sample()
                    ref = zoo.psi_raw(psi, np.asarray(c).reshape((-1,) + shape))
                    ctx.eq(np.asarray(l).reshape(-1), ref, "log-amplitudes of the sample do not belong to the current ansatz", atol=1e-9, **w)
                    ctx.count("mc_samples")
                elif k == "tdvp":
                    eq, psi = eqs[a], psis[a]
                    up = np.asarray(eq(psi.get_parameters(), t, psi=psi, hamiltonian=O[0], intStep=0))
                    lp = zoo.psi_raw(psi, full)
                    pr = np.exp(2 * (lp.real - lp.real.max()))
                    pr = pr / pr.sum()
                    E = np.sum(ham(O, t) * np.exp(lp[None, :] - lp[:, None]), axis=1)
                    G = gradients_of(psi, full, D)
                    Ec, Gc = tv.centred(pr, E), tv.centred(pr, G)
                    if a == 0:
                        S = np.real(np.einsum("n,nk,nl->kl", pr, Gc.conj(), Gc))
                        F = -np.real(np.einsum("n,nk,n->k", pr, Gc.conj(), Ec))
                        ev, V = np.linalg.eigh(S)
                        rel = np.abs(ev / ev[-1])
                        with np.errstate(all="ignore"):
                            ref = V @ (np.where(rel > 1e-13, 1 / ev, 0.) / (1 + (1e-2 / rel) ** 6) * (V.T @ F))
                        ok = True
                    else:
                        A = np.sqrt(pr)[:, None] * Gc
                        A = np.concatenate([A.real, A.imag])
                        b = np.sqrt(pr) * Ec
                        b = np.concatenate([b.real, b.imag])
                        U, s, Vt = np.linalg.svd(A, full_matrices=False)
                        r2 = (s / s[0]) ** 2
                        keep = r2 > 1e-4
                        ok = not np.any((r2 > 0.3e-4) & (r2 < 3e-4))
                        ref = -Vt[keep].T @ ((U[:, keep].T @ b) / s[keep])
                    if ok:
                        ctx.eq(up, ref, "update of the parameters depends on the history", rtol=0, atol=1e-5 * (np.max(np.abs(ref)) + 1e-9), eq=a, t=t, **w)
                        ctx.count("updates")
                elif k == "foreign":
                    # evaluate / sample with explicitly given parameters and return to the own ones
                    keep = psi.get_parameters()
                    psi.set_parameters(jnp.array(known[1 - a]))
                    v = np.asarray(psi(jnp.array(cf))).reshape(-1)
                    ctx.eq(v, np.asarray(psis[1 - a](jnp.array(cf))).reshape(-1), "two ansaetze with equal network and parameters differ", atol=1e-10, **w)
                    psi.set_parameters(keep)
                    ctx.count("foreign_parameters")
                elif k == "switch":
                    # work with fewer (other) devices from now on; new objects are created as documented
                    nd = int(rng.integers(1, len(alldev) + 1))
                    st = int(rng.integers(len(alldev)))
                    devs = [alldev[(st + j) % len(alldev)] for j in range(nd)]
                    gd.set_pmap_devices(devs)
                    D = nd
                    ctx.same(gd.device_count(), nd, "number of devices after a switch")
                    psis, shape = fresh()
                    for q, v in zip(psis, known):
                        q.set_parameters(jnp.array(v))
                    olds = ops
                    ops = []
                    for o in olds:
                        ops.append([op.BranchFreeOperator(), [], [], []])
                        for x in o[3]:
                            add(ops[-1], *x)
                    samplers = [jVMC.sampler.ExactSampler(q, shape) for q in psis]
                    mcs = [jVMC.sampler.MCSampler(q, shape, jax.random.PRNGKey(int(rng.integers(1 << 30))), updateProposer=jVMC.sampler.propose_spin_flip, numChains=2,
                                                  numSamples=8, thermalizationSweeps=1, sweepSteps=N) for q in psis]
                    eqs = [jVMC.util.TDVP(samplers[0], rhsPrefactor=1., makeReal="real", pinvTol=1., pinvCutoff=1e-2), jVMC.util.MinSR(samplers[1], pinvTol=1e-4)]
                    ctx.count("device_switch")
                for q in range(2):
                    ctx.eq(np.asarray(psis[q].get_parameters()), known[q], "parameters of an ansatz changed behind its back", rtol=0, atol=1e-13, which=q, **w)
                ctx.count("operations")
            gd.set_pmap_devices(alldev)
