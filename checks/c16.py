"""C16: the MinSR update is the minimum-norm least-squares solution of the sampled imaginary-time equation."""
RULE = ("a case = one ansatz x Hamiltonian x sampler x tolerance; the sample the solver used is recorded and the real least-squares problem "
        "O theta' = -E (centred, weighted, real and imaginary parts stacked) is rebuilt and solved from it; non-trivial when the force does not vanish")
REQUIRED = {"many_parameters": 3, "updates": 24, "exact_sampler": 8, "mc_sampler": 8, "underdetermined": 3, "overdetermined": 6, "truncated": 3, "complete_ansatz": 6,
            "restored": 24, "complex_parameters": 3, "real_parameters": 6, "time_dependent": 4, "descends": 12, "without_stage": 24, "ill_conditioned": 4}


def SHARDS(tier):
    out = [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in enumerate([1, 2, 3])]
    out += [{"fn": "run", "part": 7, "dev": 1, "ranks": 2, "mpi": True, "key": "p7"}, {"fn": "run", "part": 8, "dev": 2, "ranks": 2, "mpi": True, "key": "p8"}]
    if tier == "thorough":
        out += [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in zip((4, 5, 6), (1, 4, 2))]
        out += [{"fn": "run", "part": 9, "dev": 1, "ranks": 3, "mpi": True, "key": "p9"}]
    return out


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    from lib import zoo, tv
    from checks.c15 import record, all_data, gradients_of
    D = ctx.dev
    names = ["table_cpx", "CpxRBM", "TwoNets", "table_re", "NonHolo", "RBM", "FFN", "CpxRBM2d", "RNN", "CpxCNN"]
    generic = ["TwoNets", "CpxRBM", "RNN", "NonHolo", "RBM"]

    for i, rng in ctx.cases("update", ctx.n(8, 50), cap=ctx.n(70, 600)):
        mc = i % 2 == 1
        lst = generic if mc else names
        name = lst[(i // 2 + 3 * ctx.spec["part"]) % len(lst)]
        if i % 8 >= 6:          # more parameters than a few
            name = ["BigRBM", "BigTwo", "BigRNN"][(i + ctx.spec["part"]) % 3] if not mc else ["BigTwo", "BigRNN"][ctx.spec["part"] % 2]
            ctx.count("many_parameters")
        if name.startswith("table"):
            shape = [(3,), (2, 2), (2,)][int(rng.integers(3))]
            psi, _ = zoo.table(jVMC, shape, 2, name.split("_")[1], rng, scale=0.7)
        else:
            psi, shape, _ = zoo.make_psi(jVMC, name, rng, spread=0.3)
        N = int(np.prod(shape))
        timedep = bool(rng.integers(2))
        mkH, strings, prefs = tv.rand_ham(op, rng, N, timedep, scale=[1., 30.][int(i % 4 < 2)])
        tol = float(rng.choice([1e-9, 1e-9, 1e-4, 0.05]))
        t = float(rng.uniform(-2, 2))
        ns = int(rng.choice([4, 6, 6, 20])) if mc else 0
        if mc and name.startswith("Big"):
            ns = 120
        desc = {"ansatz": name, "shape": shape, "mc": mc, "pinvTol": tol, "t": t, "numSamples": ns}
        with ctx.case("update", i, tuple(str(v) for v in desc.values()), desc=desc):
            if mc:
                S = jVMC.sampler.MCSampler(psi, shape, jax.random.PRNGKey(int(rng.integers(1 << 30))), updateProposer=jVMC.sampler.propose_spin_flip,
                                           numChains=2, numSamples=ns, thermalizationSweeps=3, sweepSteps=N, mu=[2, 1][int(rng.integers(2))])
            else:
                S = jVMC.sampler.ExactSampler(psi, shape)
            log = record(S)
            how = int(rng.integers(3))
            # neither option changes what is solved
            kw = {"makeReal": ["imag", "real"][int(rng.integers(2))], "diagonalizeOnDevice": bool(rng.integers(2))}
            if how == 0:
                eq = jVMC.util.MinSR(S, pinvTol=1., **kw)
                eq.set_pinv_tol(tol)
            else:
                eq = jVMC.util.MinSR(S, pinvTol=tol, **kw)
            H = mkH(ElocBatchSize=int(rng.choice([-1, 3])))
            par0 = psi.get_parameters()
            par = par0 + 0.05 * jnp.array(rng.normal(size=par0.shape))
            up = np.asarray(eq(par, t, psi=psi, hamiltonian=H, intStep=0, **({"numSamples": ns} if mc and rng.integers(2) else {})))
            ctx.eq(np.asarray(psi.get_parameters()), np.asarray(par0), "parameters of the ansatz were not restored", rtol=0, atol=0)
            ctx.count("restored")
            ctx.need(len(log) == 1, "number of samplings per update", n=len(log))
            ctx.need(up.shape == np.asarray(par).shape, "update has a wrong shape", shape=up.shape)
            ctx.need(np.isrealobj(up), "update is not real", dtype=str(up.dtype))
            ctx.need(np.all(np.isfinite(up)), "update is not finite", update=up)
            psi.set_parameters(par)
            c, p = all_data(ctx, log[0][0], log[0][2], shape)
            full = zoo.basis(shape)
            lp = zoo.psi_raw(psi, full)
            Hd = tv.dense(strings, prefs, N, t)
            Eall = np.sum(Hd * np.exp(lp[None, :] - lp[:, None]), axis=1)
            Gall = gradients_of(psi, full, D)
            psi.set_parameters(par0)
            ix = zoo.flat_ids(c, shape)
            E, G = Eall[ix], Gall[ix]
            w = np.sqrt(p)
            Ec, Gc = w * tv.centred(p, E), w[:, None] * tv.centred(p, G)
            b = np.concatenate([Ec.real, Ec.imag])
            A = np.concatenate([Gc.real, Gc.imag])
            U, s, Vt = np.linalg.svd(A, full_matrices=False)
            if s[0] < 1e-9:
                ctx.count("no_gradient")
                continue
            r2 = (s / s[0]) ** 2
            keep = r2 > tol
            ref = -(Vt[keep].T @ ((U[:, keep].T @ b) / s[keep]))
            sc = max(np.max(np.abs(ref)), 1e-9)
            # T = A A^T carries rounding ~1e-16 relative to its norm
            clear = not np.any((r2 > tol / 3) & (r2 < 3 * tol)) and tol > 1e-11
            if clear:
                ctx.eq(up, ref, "update differs from the least-norm solution of the MinSR equation of the sample", rtol=0, atol=(2e-5 if tol < 1e-6 else 1e-7) * sc + 1e-10)
                ctx.count("updates")
            # oracle-free: the update lies in the span of the gradients and does not increase the sampled energy to first order
            ctx.ok(np.dot(up, A.T @ b) <= 1e-9 * (1 + np.abs(up) @ np.abs(A.T @ b)), "update is not a descent direction of the sampled energy", slope=np.dot(up, A.T @ b))
            ctx.count("descends")
            resid = up - Vt.T @ (Vt @ up)
            ctx.ok(np.max(np.abs(resid)) <= 1e-6 * sc + 1e-9, "update leaves the span of the gradients", residual=np.max(np.abs(resid)))
            ctx.eq(eq.get_energy_mean(), np.real(np.sum(p * E)), "reported energy differs from the sample mean", atol=1e-8 * (1 + np.max(np.abs(E))))
            var = np.sum(np.abs(Ec) ** 2)
            ctx.eq(np.real(eq.get_energy_variance()), var, "reported energy variance differs from the sample variance", atol=1e-8 * (1 + var))
            ctx.ok(eq.get_metadata() is not None, "no meta data after a step")
            ctx.count("mc_sampler" if mc else "exact_sampler")
            ctx.count("underdetermined" if A.shape[0] < A.shape[1] else "overdetermined")
            if not np.all(keep[r2 > 1e-13]):
                ctx.count("truncated")
            ctx.count("complex_parameters" if name in ("table_cpx", "CpxRBM", "CpxRBM2d", "NonHolo", "CpxCNN") else "real_parameters")
            if timedep:
                ctx.count("time_dependent")
            E0 = float(eq.get_energy_mean())
            eq(par, t + 0.3, psi=psi, hamiltonian=H, intStep=1)
            ctx.eq(np.asarray(psi.get_parameters()), np.asarray(par0), "parameters of the ansatz were not restored after an intermediate stage", rtol=0, atol=0)
            # the stage number is optional
            S.sample = lambda *a, **k: log[0]
            upn = np.asarray(eq(par, t, psi=psi, hamiltonian=H))
            ctx.eq(np.asarray(psi.get_parameters()), np.asarray(par0), "parameters of the ansatz were not restored without a stage number", rtol=0, atol=0)
            if clear:
                ctx.eq(upn, up, "update depends on whether a stage number is given", rtol=0, atol=1e-6 * sc + 1e-11)
            ctx.count("without_stage")
            ctx.ok(float(eq.get_energy_mean()) == E0, "an intermediate stage overwrote the energy of the step")

    # a complete ansatz: the update is the exact imaginary-time flow
    for i, rng in ctx.cases("flow", ctx.n(2, 15)):
        kind = ["cpx", "re"][i % 2]
        shape = [(3,), (2, 2), (2,)][int(rng.integers(3))]
        N = int(np.prod(shape))
        mkH, strings, prefs = tv.rand_ham(op, rng, N, True)
        t = float(rng.uniform(-2, 2))
        with ctx.case("flow", i, (kind, shape), desc={"kind": kind, "shape": shape, "t": t}):
            psi, vals = zoo.table(jVMC, shape, 2, kind, rng, scale=0.6)
            eq = jVMC.util.MinSR(jVMC.sampler.ExactSampler(psi, shape), pinvTol=1e-11)
            up = np.asarray(eq(psi.get_parameters(), t, psi=psi, hamiltonian=mkH(), intStep=0))
            n = 2 ** N
            dc = up[:n] + 1j * up[n:]
            amp = np.exp(vals)
            want = -(tv.dense(strings, prefs, N, t) @ amp) / amp
            dev = dc - want
            ctx.eq(dev - dev.mean(), np.zeros(n), "flow of a complete ansatz differs from the exact imaginary-time evolution", rtol=0, atol=1e-5 * (1 + np.max(np.abs(want))), flow=dc, exact=want)
            ctx.count("complete_ansatz")

    # parameters of very different influence: nothing above the tolerance may be discarded
    for i, rng in ctx.cases("graded", ctx.n(1, 6)):
        N = 3
        n = 2 ** N
        with ctx.case("graded", i, (N, i), desc={"N": N}):
            scales = 10. ** -np.linspace(0, [5.5, 6, 6.5][int(rng.integers(3))], n)
            vals = 0.4 * rng.normal(size=n)
            psi = zoo.graded(jVMC, N, vals, scales, D)
            mkH, strings, prefs = tv.rand_ham(op, rng, N, False)
            Hd = tv.dense(strings, prefs, N, 0.)
            eq = jVMC.util.MinSR(jVMC.sampler.ExactSampler(psi, (N,)), **[{"pinvTol": 1e-14}, {}][i % 2])
            up = np.asarray(eq(psi.get_parameters(), 0., psi=psi, hamiltonian=mkH(), intStep=0))
            amp = np.exp(vals)
            want = -np.real((Hd @ amp) / amp)
            got = up * scales
            p = amp ** 2 / np.sum(amp ** 2)
            ctx.eq(got - got @ p, want - want @ p, "directions above the tolerance were discarded in an ill-conditioned equation", rtol=0, atol=1e-3 * (1 + np.max(np.abs(want))))
            ctx.count("ill_conditioned")
