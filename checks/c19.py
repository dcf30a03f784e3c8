"""C19: measure() reports sample mean, variance and error of each observable; ground state search descends to the ground state and logs what it did."""
RULE = ("a case = one set of observables measured with one sampler on one ansatz (the sample is recorded, local estimators are recomputed densely), or one ground "
        "state search whose updates and output file are recorded; non-trivial when at least one observable is not constant on the sample")
REQUIRED = {"observables": 60, "with_arguments": 10, "exact_sampler": 6, "mc_sampler": 6, "searches": 8, "minsr_searches": 3, "early_stop": 2, "logged_steps": 20, "generator_sampler": 1, "bare_after_arguments": 3}


def SHARDS(tier):
    out = [{"fn": "measure", "dev": d, "key": "m%d" % d} for d in (1, 2, 3)] + [{"fn": "measure", "dev": 2, "ranks": 2, "mpi": True, "key": "mm"}]
    out += [{"fn": "search", "dev": d, "key": "s%d" % d} for d in (1, 2)] + [{"fn": "search", "dev": 1, "ranks": 2, "mpi": True, "key": "sm"}]
    if tier == "thorough":
        out += [{"fn": "measure", "dev": 1, "key": "m4"}, {"fn": "search", "dev": 3, "key": "s3"}, {"fn": "measure", "dev": 1, "ranks": 3, "mpi": True, "key": "mm3"}]
    return out


def rand_op(op, rng, N):
    """-> (operator, dense(t), "no" | "needed" | "optional": whether it takes an argument, its default)"""
    from lib import tv
    mode = str(rng.choice(["no", "needed", "optional"]))
    dflt = round(float(rng.uniform(0.5, 1.5)), 3)
    mk, st, pr = tv.rand_ham(op, rng, N, mode != "no", default=dflt if mode == "optional" else None)
    O = mk(ElocBatchSize=int(rng.choice([-1, 4])))
    return O, (lambda t: tv.dense(st, pr, N, t)), mode, dflt


def measure(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    from lib import zoo, tv
    from checks.c15 import record, all_data
    names = ["table_cpx", "RNN", "CpxRBM", "TwoNets", "RBM", "Sym"]
    for i, rng in ctx.cases("measure", ctx.n(5, 40), cap=ctx.n(60, 500)):
        name = names[(i + ctx.dev) % len(names)]
        kind = ["exact", "mc", "mc"][i % 3] if name != "RNN" else "gen"
        if name.startswith("table"):
            shape = [(3,), (2, 2)][int(rng.integers(2))]
            psi, _ = zoo.table(jVMC, shape, 2, "cpx", rng, scale=0.7)
        else:
            psi, shape, _ = zoo.make_psi(jVMC, name, rng, spread=0.3)
        N = int(np.prod(shape))
        with ctx.case("measure", i, (name, kind, shape, i), desc={"ansatz": name, "sampler": kind, "shape": shape}):
            ns = int(rng.choice([20, 37, 64]))
            if kind == "exact":
                S = jVMC.sampler.ExactSampler(psi, shape)
            else:
                S = jVMC.sampler.MCSampler(psi, shape, jax.random.PRNGKey(int(rng.integers(1 << 30))), updateProposer=jVMC.sampler.propose_spin_flip,
                                           numChains=3, numSamples=17, thermalizationSweeps=2, sweepSteps=N, mu=[2, 1][int(rng.integers(2))])
            log = record(S)
            obs, dens = {}, {}
            for k in range(int(rng.integers(1, 5))):
                key = "obs%d" % k
                lst, dl = [], []
                for _ in range(int(rng.integers(1, 5))):
                    O, d, mode, dflt = rand_op(op, rng, N)
                    t = float(rng.uniform(2, 4))
                    if mode == "needed" or rng.integers(3) == 0:
                        lst.append((O, t) if rng.integers(2) else [O, t])
                        ctx.count("with_arguments")
                        dl.append(d(t))
                    else:
                        lst.append(O)
                        dl.append(d(dflt))
                        if len(lst) > 1 and mode == "optional" and isinstance(lst[-2], (tuple, list)):
                            ctx.count("bare_after_arguments")
                if len(lst) == 1 and not isinstance(lst[0], (tuple, list)) and rng.integers(2):
                    obs[key] = lst[0]
                else:
                    obs[key] = lst if rng.integers(2) else tuple(lst)
                dens[key] = dl
            par = np.asarray(psi.get_parameters())
            req = None if kind == "exact" or rng.integers(3) == 0 else ns
            res = jVMC.util.measure(obs, psi, S, **({} if req is None else {"numSamples": req}))
            ctx.eq(np.asarray(psi.get_parameters()), par, "a measurement changes the ansatz", rtol=0, atol=0)
            ctx.need(len(log) == 1, "number of samplings per measurement", n=len(log))
            c, p = all_data(ctx, log[0][0], log[0][2], shape)
            if kind != "exact":
                ctx.ok(len(p) >= (req or 17), "fewer samples than requested", n=len(p), requested=req or 17)
            full = zoo.basis(shape)
            lp = zoo.psi_raw(psi, full)
            rat = np.exp(lp[None, :] - lp[:, None])
            ix = zoo.flat_ids(c, shape)
            ctx.same(sorted(res), sorted(obs), "measured observables differ from the requested ones")
            for key, dl in dens.items():
                r = res[key]
                ctx.same(sorted(r), ["MC_error", "mean", "variance"], "entries of a measurement")
                for j, Hd in enumerate(dl):
                    E = np.sum(Hd * rat, axis=1)[ix]
                    mean = np.sum(p * E)
                    var = np.sum(p * np.abs(E - mean) ** 2)
                    sc = 1 + np.max(np.abs(E))
                    ctx.need(np.asarray(r["mean"]).shape == (len(dl),), "number of measured values", shape=np.asarray(r["mean"]).shape, n=len(dl))
                    ctx.ok(np.isrealobj(np.asarray(r["mean"])) and np.isrealobj(np.asarray(r["variance"])) and np.isrealobj(np.asarray(r["MC_error"])), "measured values are not real")
                    ctx.eq(r["mean"][j], mean.real, "mean of an observable differs from the sample mean", rtol=0, atol=1e-9 * sc, key=key, j=j)
                    ctx.eq(r["variance"][j], var, "variance of an observable differs from the sample variance", rtol=0, atol=1e-9 * sc ** 2, key=key, j=j)
                    want = 0. if kind == "exact" else np.sqrt(var / len(p))
                    ctx.eq(r["MC_error"][j], want, "Monte Carlo error is not the standard error of the mean", rtol=0, atol=1e-7 * sc, key=key, j=j, n=len(p))
                    if kind == "exact":
                        a = np.exp(lp - lp.real.max())
                        ctx.eq(r["mean"][j], (np.vdot(a, Hd @ a) / np.vdot(a, a)).real, "mean differs from the quantum expectation value", rtol=0, atol=1e-8 * sc)
                    ctx.count("observables")
            ctx.count({"exact": "exact_sampler", "mc": "mc_sampler", "gen": "generator_sampler"}[kind])


def search(ctx):
    import contextlib
    import io
    import os
    import numpy as np
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    from lib import zoo, tv
    from checks.c18 import snapshot
    for i, rng in ctx.cases("search", ctx.n(4, 20), cap=ctx.n(80, 500)):
        which = ["tdvp", "minsr"][i % 2]
        shape = [(2,), (3,)][int(rng.integers(2))]
        N = int(np.prod(shape))
        kind = "cpx"
        steps = int(rng.integers(4, 9))
        dt = float(rng.uniform(0.02, 0.06))
        shift = float(rng.choice([0., 0.5]))
        stop = i >= 2
        with ctx.case("search", i, (which, shape, kind, steps, stop), desc={"equation": which, "shape": shape, "steps": steps, "stepSize": dt, "shift": shift, "stop": stop}):
            mkH, st, pr = tv.rand_ham(op, rng, N)
            Hd = tv.dense(st, pr, N)
            w, v = np.linalg.eigh(Hd)
            psi, vals = zoo.table(jVMC, shape, 2, kind, rng, scale=0.5)
            if stop:      # start at the ground state, slightly perturbed: the variance criterion has to end the search
                gs = v[:, 0]
                if np.min(np.abs(gs)) < 1e-3:
                    ctx.count("skipped")
                    continue
                vals = np.log(gs.astype(complex)) + 1e-3 * rng.normal(size=len(gs))
                psi.set_parameters(jnp.array(zoo.table_vec(vals, kind)))
            S = jVMC.sampler.ExactSampler(psi, shape)
            if which == "tdvp":
                eq = jVMC.util.TDVP(S, rhsPrefactor=1., makeReal="real", pinvTol=1e-10, pinvCutoff=1e-8, diagonalShift=shift)
            else:
                eq = jVMC.util.MinSR(S, pinvTol=1e-10)
            # record the updates through the public call protocol
            calls = []
            cls = type(eq)

            class Rec(cls):
                def __call__(self, par, t, **k):
                    u = cls.__call__(self, par, t, **k)
                    calls.append((np.asarray(par), np.asarray(u), float(cls.get_energy_mean(self)), float(np.real(cls.get_energy_variance(self)))))
                    return u
            eq.__class__ = Rec
            H = mkH()
            mkO, so, po = tv.rand_ham(op, rng, N)
            Od = tv.dense(so, po, N)
            fn = os.path.join(ctx.outdir, "g%d_%s.hdf5" % (i, ctx.spec["key"]))
            buf = io.StringIO()
            vtol = 1e-10
            if stop:
                vtol = 1e-4
                steps = 40
            p0 = np.asarray(psi.get_parameters())
            withobs = bool(i % 2 == 0) or stop
            with contextlib.redirect_stdout(buf):
                outp = jVMC.util.OutputManager(fn)
                jVMC.util.ground_state_search(psi, H, eq, S, numSteps=steps, varianceTol=vtol, stepSize=dt,
                                              observables={"energy": H, "other": [mkO(), H]} if withobs else None, outp=outp if (withobs or i == 1) else None)
            n = len(calls)
            ctx.ok(1 <= n <= steps, "number of steps", n=n, steps=steps)
            varis = [c[3] for c in calls]
            if stop:
                ctx.ok(n < steps and varis[-1] <= vtol and all(x > vtol for x in varis[:-1]), "the search does not stop when the energy variance reaches its tolerance", variances=varis)
                ctx.count("early_stop")
            else:
                ctx.ok(n == steps, "the search stops before the requested number of steps", n=n, steps=steps, variances=varis)
            # the trajectory of parameters: theta <- theta + stepSize * update
            th = p0
            for k, (par, u, e, va) in enumerate(calls):
                ctx.eq(par, th, "update computed at other parameters than the current ones", rtol=0, atol=1e-12, step=k)
                th = th + dt * u
                a = np.exp(zoo_vals(par))
                ctx.eq(e, (np.vdot(a, Hd @ a) / np.vdot(a, a)).real, "energy of the step", atol=1e-8)
            ctx.eq(np.asarray(psi.get_parameters()), th, "final parameters are not the sum of the updates", rtol=0, atol=1e-11)
            en = [c[2] for c in calls]
            ctx.ok(np.all(np.diff(en) <= 1e-9), "energy increases during the ground state search", energies=en)
            ctx.ok(min(en) >= w[0] - 1e-9, "energy below the ground state energy", energies=en, ground=w[0])
            if not stop:
                ctx.ok(en[-1] < en[0] - 1e-4 * (en[0] - w[0]), "the search does not lower the energy", energies=en, ground=w[0])
            if withobs and ctx.rank == 0:
                got, _ = snapshot(fn)
                ctx.eq(got["/observables/times"], np.arange(n + 1.), "recorded steps", atol=0, rtol=0)
                ths = [c[0] for c in calls] + [th]
                for k, q in enumerate(ths):
                    a = np.exp(zoo_vals(q))
                    a = a / np.linalg.norm(a)
                    for key, j, M in (("energy", 0, Hd), ("other", 0, Od), ("other", 1, Hd)):
                        ctx.eq(got["/observables/%s/mean" % key][k][j], np.vdot(a, M @ a).real, "recorded expectation value differs", rtol=0, atol=1e-7, step=k, key=key)
                    ctx.count("logged_steps")
            ctx.count("searches")
            if which == "minsr":
                ctx.count("minsr_searches")
            if ctx.size > 1:
                ctx.comm.Barrier()
            if ctx.rank == 0 and os.path.exists(fn):
                os.unlink(fn)


def zoo_vals(par):
    import numpy as np
    n = len(par) // 2
    return np.asarray(par[:n]) + 1j * np.asarray(par[n:])
