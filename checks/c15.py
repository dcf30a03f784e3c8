"""C15: the TDVP update solves the regularised variational equation of the sample it was computed from."""
RULE = ("a case = one ansatz x Hamiltonian x sampler x set of options (real/imaginary part, prefactor, diagonal shift, cutoffs, time, "
        "cross validation); the sample the solver actually used is recorded and the equation is rebuilt and solved densely from it; "
        "non-trivial when the force does not vanish")
REQUIRED = {"many_parameters": 3, "updates": 30, "exact_sampler": 12, "mc_sampler": 8, "snr": 10, "complete_ansatz": 8, "restored": 30, "cross_validation": 3, "cross_validation_ratio": 2,
            "diagonal_shift": 4, "time_dependent": 6, "imag": 3, "dead_parameter": 2, "large_cutoff": 3, "povm": 2, "small_shift": 4, "without_stage": 30, "equations": 30, "ill_conditioned": 4}


def SHARDS(tier):
    out = [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in enumerate([1, 2, 1, 3])]
    out += [{"fn": "run", "part": 7, "dev": 1, "ranks": 2, "mpi": True, "key": "p7"}]
    out += [{"fn": "complete", "dev": d, "key": "c%d" % d} for d in (1, 2)]
    if tier == "thorough":
        out += [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in zip((4, 5, 6), (1, 4, 2))]
        out += [{"fn": "run", "part": 8, "dev": 2, "ranks": 2, "mpi": True, "key": "p8"}, {"fn": "run", "part": 9, "dev": 1, "ranks": 3, "mpi": True, "key": "p9"}]
        out += [{"fn": "complete", "dev": d, "key": "c%d" % d} for d in (3, 4)]
    return out


def record(sampler):
    """remember what the sampler handed out"""
    log = []
    orig = sampler.sample

    def sample(*a, **k):
        out = orig(*a, **k)
        log.append(out)
        return out
    sampler.sample = sample
    return log


def all_data(ctx, c, p, shape):
    import numpy as np
    c, p = np.asarray(c).reshape((-1,) + tuple(shape)), np.asarray(p).ravel()
    if ctx.size > 1:
        parts = ctx.comm.allgather((c, p))
        c = np.concatenate([x[0] for x in parts])
        p = np.concatenate([x[1] for x in parts])
    return c, p


def gradients_of(psi, configs, D):
    """d log psi / d (real parameter vector), numerically through the plain network: (n, P)"""
    import numpy as np
    import jax
    import jax.numpy as jnp
    from lib import zoo
    net = psi.net
    p0 = psi.get_parameters()
    unflatten = zoo.unflattener(psi)
    n = configs.shape[0]
    m = 1 << max(0, (n - 1).bit_length())
    cf = jnp.asarray(np.concatenate([configs, np.repeat(configs[:1], m - n, axis=0)]))

    def f(v):
        ps = dict(psi.parameters)
        ps["params"] = unflatten(v)
        y = jax.vmap(lambda s: net.apply(ps, s))(cf)
        return jnp.stack([jnp.real(y), jnp.imag(y) + 0. * jnp.real(y)])
    J = np.asarray(jax.jit(jax.jacfwd(f))(p0))
    return (J[0] + 1j * J[1])[:n]


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import flax.linen as nn
    import jVMC
    import jVMC.operator as op
    from lib import zoo, tv
    D = ctx.dev

    class Dead(nn.Module):
        """one parameter without influence"""
        @nn.compact
        def __call__(self, s):
            x = 2 * s.ravel() - 1.
            W = self.param("W", lambda k, sh: 0.5 * jax.random.normal(k, sh), (2, x.shape[0]))
            z = self.param("z", lambda k, sh: jnp.ones(sh), (1,))
            y = jnp.tanh(W @ x)
            return y[0] + 1j * y[1] + 0. * z[0]

    def make(name, rng):
        if name == "Dead":
            psi = jVMC.vqs.NQS(Dead(), seed=int(rng.integers(1 << 30)))
            psi(jnp.zeros((D, 1, 3), dtype=np.int32))
            return psi, (3,)
        if name.startswith("table"):
            shape = [(3,), (2, 2), (2,)][int(rng.integers(3))]
            psi, _ = zoo.table(jVMC, shape, 2, name.split("_")[1], rng, scale=0.7)
            return psi, shape
        psi, shape, _ = zoo.make_psi(jVMC, name, rng, spread=0.3)
        return psi, shape

    names = ["table_cpx", "CpxRBM", "TwoNets", "table_re", "FFN", "NonHolo", "Dead", "RBM", "CpxRBM2d", "RNN", "CpxCNN", "Sym"]
    generic = ["TwoNets", "FFN", "NonHolo", "Dead", "RNN", "RBM"]

    for i, rng in ctx.cases("update", ctx.n(8, 50), cap=ctx.n(80, 700)):
        mc = i % 2 == 1
        lst = generic if mc else names
        name = lst[(i // 2 + 3 * ctx.spec["part"]) % len(lst)]
        if i % 8 >= 6:          # more parameters than a few
            name = ["BigRBM", "BigTwo", "BigRNN"][(i + ctx.spec["part"]) % 3] if not mc else ["BigTwo", "BigRNN"][ctx.spec["part"] % 2]
            ctx.count("many_parameters")
        psi, shape = make(name, rng)
        N = int(np.prod(shape))
        timedep = bool(rng.integers(2))
        mkH, strings, prefs = tv.rand_ham(op, rng, N, timedep, scale=[1., 30.][int(i % 4 == 1)])
        x = [1., 1j, 1j, -1.][int(rng.integers(4))]
        mk = "imag" if (x == 1j and rng.integers(4)) or (x != 1j and name in ("TwoNets", "NonHolo") and rng.integers(5) == 0) else "real"
        if mk == "imag" and name in ("FFN", "RBM"):
            mk = "real"
        shift = [0., 1e-4, 0.01, 1e-3, 1., 0., 1e-6, 0.][(i + 3 * ctx.spec["part"]) % 8]
        cut = float(rng.choice([1e-6, 1e-4, 1e-2, 5e-2]))
        cut = 1e-2 if i == 0 else cut
        tol = float(rng.choice([1e-10, 1e-2, 0.3, 1.5]))
        snr = float(rng.choice([0., 1., 2.]))
        t = float(rng.uniform(-2, 2))
        cv = i % 4 == 3 or i == 0
        desc = {"ansatz": name, "shape": shape, "mc": mc, "prefactor": str(x), "part": mk, "shift": shift, "pinvCutoff": cut, "pinvTol": tol, "snrTol": snr, "t": t, "cv": cv}
        with ctx.case("update", i, tuple(str(v) for v in desc.values()), desc=desc):
            if mc:
                ns = 60 * max(1, N - 2)
                S = jVMC.sampler.MCSampler(psi, shape, jax.random.PRNGKey(int(rng.integers(1 << 30))), updateProposer=jVMC.sampler.propose_spin_flip,
                                           numChains=4, numSamples=ns, thermalizationSweeps=3, sweepSteps=N, mu=[2, 1][int(rng.integers(2))])
            else:
                S = jVMC.sampler.ExactSampler(psi, shape)
            log = record(S)
            eq = jVMC.util.TDVP(S, snrTol=snr, pinvTol=tol, pinvCutoff=cut, makeReal=mk, rhsPrefactor=x, diagonalShift=shift, crossValidation=cv,
                                diagonalizeOnDevice=bool(rng.integers(2)))
            if rng.integers(2):
                eq.set_diagonal_shift(shift)
                eq.set_cross_validation(cv)
            H = mkH(ElocBatchSize=int(rng.choice([-1, 3])))
            # the solver is asked at parameters that differ from the current ones, as in a Runge-Kutta stage
            par0 = psi.get_parameters()
            par = par0 + 0.05 * jnp.array(rng.normal(size=par0.shape))
            extra = {"numSamples": ns // 2} if mc and rng.integers(2) else {}
            up = np.asarray(eq(par, t, psi=psi, hamiltonian=H, intStep=0, **extra))
            ctx.eq(np.asarray(psi.get_parameters()), np.asarray(par0), "parameters of the ansatz were not restored", rtol=0, atol=0)
            ctx.count("restored")
            ctx.need(len(log) == 1, "number of samplings per update", n=len(log))
            ctx.need(up.shape == np.asarray(par).shape, "update has a wrong shape", got=up.shape)
            ctx.need(np.isrealobj(up), "update is not real", dtype=str(up.dtype))
            ctx.need(np.all(np.isfinite(up)), "update is not finite", update=up)
            # ---------------- dense reference from the recorded sample
            psi.set_parameters(par)
            c, p = all_data(ctx, log[0][0], log[0][2], shape)
            full = zoo.basis(shape)
            lp = zoo.psi_raw(psi, full)
            Hd = tv.dense(strings, prefs, N, t)
            with np.errstate(all="ignore"):
                rat = np.exp(lp[None, :] - lp[:, None])
            Eall = np.sum(Hd * rat, axis=1)
            Gall = gradients_of(psi, full, D)
            psi.set_parameters(par0)
            ix = zoo.flat_ids(c, shape)
            E, G = Eall[ix], Gall[ix]
            if not mc:
                pe = np.exp(2 * (lp.real - lp.real.max()))
                w = np.zeros(len(full))
                np.add.at(w, ix, p)
                ctx.eq(w, pe / pe.sum(), "weights of the exact sample differ from the Born probabilities", atol=1e-9)
            Ec, Gc = tv.centred(p, E), tv.centred(p, G)
            S0 = np.einsum("n,nk,nl->kl", p, Gc.conj(), Gc)
            F0 = -x * np.einsum("n,nk,n->k", p, Gc.conj(), Ec)
            q = (lambda z: np.real(z).astype(complex)) if mk == "real" else (lambda z: 1j * np.imag(z))
            Sq, Fq = q(S0), q(F0)
            Sq = Sq + np.diag(shift * np.diag(Sq))
            sc = max(np.max(np.abs(Sq)), 1e-12)
            ctx.eq(np.asarray(eq.get_S()) + 0j, Sq, "matrix of the variational equation differs from the sample covariance of the gradients", rtol=0, atol=1e-8 * sc)
            var = np.sum(p * np.abs(Ec) ** 2)
            ctx.eq(eq.get_energy_mean(), np.real(np.sum(p * E)), "reported energy differs from the sample mean", atol=1e-8 * (1 + np.max(np.abs(E))))
            ctx.eq(np.real(eq.get_energy_variance()), var, "reported energy variance differs from the sample variance", atol=1e-8 * (1 + var))
            md = eq.get_metadata()
            ev, V = np.linalg.eigh(Sq)
            ctx.eq(np.sort(np.asarray(eq.get_spectrum())), ev, "reported spectrum differs", rtol=0, atol=1e-8 * sc)
            cutoff = float(md["pinv_cutoff"])
            if rng.integers(3) == 0 and ctx.size == 1:
                # timings on request: same result
                import os
                fo = os.path.join(ctx.outdir, "outp_%s_%d.hdf5" % (ctx.spec["key"], i))
                outp = jVMC.util.OutputManager(fo)
                keep = S.sample
                S.sample = lambda *a, **k: log[0]
                upo = np.asarray(eq(par, t, psi=psi, hamiltonian=H, intStep=1, outp=outp))
                S.sample = keep
                ctx.eq(upo, up, "update depends on whether an output manager is given", rtol=0, atol=1e-6 * max(np.max(np.abs(up)), 1e-9) + 1e-11)
                ctx.eq(np.asarray(psi.get_parameters()), np.asarray(par0), "parameters of the ansatz were not restored with an output manager", rtol=0, atol=0)
                os.unlink(fo)
                ctx.count("with_output_manager")
            ctx.ok(cutoff >= cut * (1 - 1e-9), "cutoff below the configured lower bound", cutoff=cutoff, pinvCutoff=cut)
            ctx.ok(cutoff <= max(1e-2, cut) * (1 + 1e-9), "cutoff above the initial value", cutoff=cutoff)
            VtF = V.conj().T @ Fq
            rel = np.abs(ev / ev[-1])
            with np.errstate(all="ignore"):
                inv = np.where(rel > 1e-13, 1. / ev, 0.)
                reg = 1. / (1. + (cutoff / rel) ** 6)
            Fn = np.linalg.norm(Fq)
            # the soft cutoff acts at rel ~ cutoff; well below it rounding decides nothing
            if mc:
                rho = (-x * Gc.conj() * Ec[:, None])
                rho = q(rho) @ V.conj()
                rc = tv.centred(p, rho)
                rvar = np.sum(p[:, None] * np.abs(rc) ** 2, axis=0)
                ntot = float(S.get_last_number_of_samples())
                with np.errstate(all="ignore"):
                    SNR = np.sqrt(ntot * np.abs(VtF) ** 2 / rvar)
                    iso = np.array([np.min(np.abs(np.delete(ev, k) - ev[k])) if len(ev) > 1 else 1. for k in range(len(ev))]) > 1e-5 * sc
                    good = (rel > 1e-6) & iso & (rvar > 1e-12 * max(1., np.max(rvar)))
                order = np.argsort(np.asarray(eq.get_spectrum()), kind="stable")
                gotsnr = np.asarray(eq.get_snr())[order]
                ctx.eq(gotsnr[good], SNR[good], "signal-to-noise ratio differs from its sample definition", rtol=1e-4, atol=1e-4)
                ctx.count("snr", int(np.sum(good)))
                with np.errstate(all="ignore"):
                    sreg = np.where(snr > 0, 1. / (1. + (snr / np.where(np.isnan(SNR), np.inf, SNR)) ** 6), 1.)
                degenerate = np.any((rel > 1e-3 * cutoff) & ~iso & (np.abs(VtF) > 1e-10 * max(Fn, 1e-30)))
                reg = reg * sreg
            ref = np.real(V @ (inv * reg * VtF))
            amb = mc and snr > 0 and degenerate
            usc = max(np.max(np.abs(ref)), 1e-9)
            if not amb:
                ctx.eq(up, ref, "update differs from the regularised solution of the variational equation", rtol=0, atol=2e-5 * usc + 1e-10)
                ctx.count("updates")
                res = np.linalg.norm((inv * reg * ev - 1) * VtF) / Fn if Fn > 1e-12 else None
                if res is not None:
                    ctx.eq(md["tdvp_residual"], res, "reported solver residual differs", rtol=0, atol=1e-5 * max(1., res))
                    ctx.ok(float(md["tdvp_residual"]) <= tol * (1 + 1e-6) or cutoff <= cut * (1 + 1e-9) or np.isnan(tol),
                           "cutoff not lowered although the residual exceeds the tolerance", residual=md["tdvp_residual"], cutoff=cutoff, tol=tol)
            # distance between the exact and the variational evolution of the sampled state
            d = np.sum(p * np.abs(Gc @ up + x * Ec) ** 2) / var
            ctx.eq(md["tdvp_error"], d, "reported TDVP error is not the distance between exact and variational evolution", rtol=0, atol=1e-6 * (1 + d))
            ctx.ok(np.allclose([float(v) for v in eq.get_residuals()], [float(md["tdvp_error"]), float(md["tdvp_residual"])], equal_nan=True), "residuals differ from the meta data")
            if cv:
                for k in ("tdvp_residual_cross_validation_ratio", "tdvp_error_cross_validation_ratio"):
                    ctx.ok(k in md, "cross validation ratio missing", keys=list(md))
                if cut >= 1e-2 and (snr == 0. or not mc) and Fn > 1e-9:
                    # the cutoff is fixed: solve with every other sample of each device, validate with the remaining ones
                    halves = []
                    for h in (0, 1):
                        ch, ph = all_data(ctx, np.asarray(log[0][0])[:, h::2], np.asarray(log[0][2])[:, h::2], shape)
                        jx = zoo.flat_ids(ch, shape)
                        ph = ph / ph.sum()
                        eh, gh = tv.centred(ph, Eall[jx]), tv.centred(ph, Gall[jx])
                        sh = q(np.einsum("n,nk,nl->kl", ph, gh.conj(), gh))
                        halves.append((sh + np.diag(shift * np.diag(sh)), q(-x * np.einsum("n,nk,n->k", ph, gh.conj(), eh)), (ph, eh, gh)))
                    (s1, f1, _), (s2, f2, (p2, e2, g2)) = halves
                    e1, v1 = np.linalg.eigh(s1)
                    if e1[-1] > 1e-9 and np.linalg.norm(f2) > 1e-9:
                        r1 = np.abs(e1 / e1[-1])
                        with np.errstate(all="ignore"):
                            u1 = np.real(v1 @ (np.where(r1 > 1e-13, 1. / e1, 0.) / (1. + (cut / r1) ** 6) * (v1.conj().T @ f1)))
                        want = np.linalg.norm(s2 @ u1 - f2) / np.linalg.norm(f2) / float(md["tdvp_residual"])
                        ctx.eq(md["tdvp_residual_cross_validation_ratio"], want, "cross validation ratio of the residual differs from its definition", rtol=1e-4, atol=1e-6)
                        ctx.count("cross_validation_ratio")
                        # ... and the distance between exact and variational evolution on the validation samples, in units of the variance of the sample
                        d2 = abs(1 + (np.sum(p2 * np.abs(g2 @ u1 + x * e2) ** 2) - np.sum(p2 * np.abs(e2) ** 2)) / var)
                        if float(md["tdvp_error"]) > 1e-4:
                            ctx.eq(md["tdvp_error_cross_validation_ratio"], d2 / float(md["tdvp_error"]), "cross validation ratio of the TDVP error differs from its definition", rtol=1e-3, atol=1e-6)
                            ctx.count("cross_validation_error_ratio")
                # validation must not change the solution: same data without it
                last = log[0]
                S2 = type("Fixed", (type(S),), {})
                eq2 = jVMC.util.TDVP(S, snrTol=snr, pinvTol=tol, pinvCutoff=cut, makeReal=mk, rhsPrefactor=x, diagonalShift=shift, crossValidation=False)
                keep = S.sample
                S.sample = lambda *a, **k: last
                up2 = np.asarray(eq2(par, t, psi=psi, hamiltonian=H, intStep=0))
                S.sample = keep
                if not amb:
                    ctx.eq(up, up2, "cross validation changes the update", rtol=0, atol=1e-6 * usc + 1e-11)
                ctx.eq(np.sort(np.asarray(eq2.get_spectrum())), np.sort(np.asarray(eq.get_spectrum())), "cross validation changes the reported spectrum", rtol=0, atol=1e-9 * sc)
                ctx.eq(np.asarray(eq2.get_S()), np.asarray(eq.get_S()), "cross validation changes the matrix", rtol=0, atol=1e-10 * sc)
                ctx.count("cross_validation")
            ctx.count("mc_sampler" if mc else "exact_sampler")
            if shift:
                ctx.count("diagonal_shift")
                ctx.count("small_shift", int(shift <= 1e-3))
            if timedep:
                ctx.count("time_dependent")
            if mk == "imag":
                ctx.count("imag")
            if name == "Dead":
                ctx.count("dead_parameter")
            if cut >= 1e-2 or tol >= 1:
                ctx.count("large_cutoff")
            ctx.eq(np.asarray(eq.S_dot(jnp.array(up))), S0 @ up, "quantum metric applied to a vector differs from the sample covariance", rtol=0, atol=1e-7 * (sc * np.max(np.abs(up)) + 1e-9))
            # the stage number is optional
            keep = S.sample
            S.sample = lambda *a, **k: log[0]
            upn = np.asarray(eq(par, t, psi=psi, hamiltonian=H))
            S.sample = keep
            ctx.eq(np.asarray(psi.get_parameters()), np.asarray(par0), "parameters of the ansatz were not restored without a stage number", rtol=0, atol=0)
            if not amb:
                ctx.eq(upn, up, "update depends on whether a stage number is given", rtol=0, atol=1e-6 * usc + 1e-11)
            ctx.count("without_stage")
            # a later stage of a multi-stage integrator does not overwrite what was stored for the step
            up3 = eq(par, t + 0.1, psi=psi, hamiltonian=H, intStep=1)
            ctx.eq(np.asarray(psi.get_parameters()), np.asarray(par0), "parameters of the ansatz were not restored after an intermediate stage", rtol=0, atol=0)
            ctx.ok(eq.get_metadata() is md or float(eq.get_metadata()["tdvp_error"]) == float(md["tdvp_error"]), "an intermediate stage overwrote the meta data of the step")
            ctx.eq(eq.get_energy_mean(), np.real(np.sum(p * E)), "an intermediate stage overwrote the energy of the step", atol=1e-8 * (1 + np.max(np.abs(E))))
            # the same equation from data given directly
            sh = np.asarray(log[0][0]).shape[:2]
            jx = zoo.flat_ids(np.asarray(log[0][0]).reshape((-1,) + tuple(shape)), shape)
            oE = jVMC.stats.SampledObs(jnp.array(Eall[jx].reshape(sh)), jnp.asarray(log[0][2]))
            oG = jVMC.stats.SampledObs(jnp.array(Gall[jx].reshape(sh + (-1,))), jnp.asarray(log[0][2]))
            for nm, y, args in (("get_tdvp_equation", x, {}), ("get_tdvp_equation", 0.3 - 2j, {"rhsPrefactor": 0.3 - 2j}), ("get_sr_equation", 1., {})):
                Sg, Fg = getattr(eq, nm)(oE, oG, **args)
                ctx.eq(np.asarray(Sg) + 0j, Sq, "matrix returned by %s differs" % nm, rtol=0, atol=1e-8 * sc)
                Fy = q(-y * np.einsum("n,nk,n->k", p, Gc.conj(), Ec))
                ctx.eq(np.asarray(Fg).ravel() + 0j, Fy, "force returned by %s differs" % nm, rtol=0, atol=1e-8 * (1e-9 + np.max(np.abs(np.einsum("n,nk,n->k", p, Gc.conj(), Ec))) * abs(y)))
            ctx.count("equations")


def complete(ctx):
    """an ansatz with one parameter per basis state: the update is the exact Schroedinger / imaginary-time / Lindblad flow"""
    import numpy as np
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    from lib import zoo, tv
    D = ctx.dev
    for i, rng in ctx.cases("flow", ctx.n(6, 40)):
        kind = ["cpx", "re"][i % 2]
        N = [3, 2, 4, 1][i % 4]
        shape = (2, 2) if i % 4 == 2 else (N,)
        mkH, strings, prefs = tv.rand_ham(op, rng, N, bool(rng.integers(2)))
        t = float(rng.uniform(-2, 2))
        for x, mk in ((1j, "imag"), (1j, "real"), (1., "real")):
            with ctx.case("flow", i, (kind, shape, str(x), mk), desc={"kind": kind, "shape": shape, "x": str(x), "part": mk, "t": t}):
                psi, vals = zoo.table(jVMC, shape, 2, kind, rng, scale=0.6)
                S = jVMC.sampler.ExactSampler(psi, shape)
                eq = jVMC.util.TDVP(S, pinvTol=1e-12, pinvCutoff=1e-8, makeReal=mk, rhsPrefactor=x)
                up = np.asarray(eq(psi.get_parameters(), t, psi=psi, hamiltonian=mkH(), intStep=0))
                n = 2 ** N
                dc = up[:n] + 1j * up[n:]
                Hd = tv.dense(strings, prefs, N, t)
                amp = np.exp(vals)
                want = -x * (Hd @ amp) / amp
                dev = dc - want
                # norm and global phase are not physical
                dev = dev - dev.mean()
                ctx.eq(dev, np.zeros(n), "variational flow of a complete ansatz differs from the exact one", rtol=0, atol=1e-5 * (1 + np.max(np.abs(want))), flow=dc, exact=want)
                ctx.ok(abs(float(eq.get_residuals()[0])) < 1e-6, "TDVP error of a complete ansatz does not vanish", err=eq.get_residuals())
                ctx.count("complete_ansatz")
    # parameters of very different influence: the metric spans many orders of magnitude and a small cutoff must resolve all of them
    # ---- components of the force that vanish exactly although they fluctuate (signal-to-noise ratio zero), with and without an SNR cutoff
    import jax
    import flax.linen as nn

    class LogLinear(nn.Module):
        @nn.compact
        def __call__(self, s):
            return jnp.sum(self.param("w", lambda k, sh: 0.1 * jnp.ones(sh), (s.size,)) * (2. * s.ravel() - 1.)) + 0.j

    for i, rng in ctx.cases("no_signal", ctx.n(6, 24)):
        N = int(rng.integers(2, 5))
        b = np.concatenate([zoo.basis((N,), 2)] * D)
        live = np.arange(N) == int(rng.integers(N))
        c = float(rng.choice([-2., 0.5, 1.]))
        snr = [0., 0., 2.][i % 3]
        with ctx.case("no_signal", i, (N, snr, c), desc={"sites": N, "snrTol": snr, "field": c}):
            psi = jVMC.vqs.NQS(LogLinear())
            psi(jnp.zeros((D, 1, N), dtype=np.int32))
            S = jVMC.sampler.MCSampler(psi, (N,), jax.random.PRNGKey(0), updateProposer=jVMC.sampler.propose_spin_flip, numChains=2, thermalizationSweeps=1, sweepSteps=1)
            S.sample(numSamples=len(b))
            conf = zoo.spread_over(b, D)
            H = op.BranchFreeOperator()
            H.add(op.scal_opstr(c, (op.Sz(int(np.argmax(live))),)))
            S.sample = lambda *a, **k: (conf, psi(conf), jnp.full(conf.shape[:2], 1. / len(b)))
            x = 2. * b.reshape(len(b), N) - 1.
            E = np.real(np.asarray(H.get_O_loc(conf, psi))).reshape(-1)
            want = -np.mean(x * E[:, None], axis=0)
            eq = jVMC.util.TDVP(S, snrTol=snr, pinvTol=1e-10, pinvCutoff=1e-10, makeReal="real", rhsPrefactor=1., diagonalizeOnDevice=bool(rng.integers(2)))
            up = np.asarray(eq(psi.get_parameters(), 0., psi=psi, hamiltonian=H, intStep=0))
            ctx.need(np.all(np.isfinite(up)), "update is not finite where a component of the force vanishes", update=up, expected=want)
            if snr == 0.:
                ctx.eq(up, want, "update differs where a component of the force vanishes", rtol=0, atol=1e-9)
            ctx.ok(np.all(up[~live] == 0.) or np.max(np.abs(up[~live])) < 1e-9, "a vanishing force moves a parameter", update=up)
            ctx.count("no_signal")

    for i, rng in ctx.cases("graded", ctx.n(3, 12)):
        N = 3
        n = 2 ** N
        with ctx.case("graded", i, (N, i), desc={"N": N}):
            scales = 10. ** -np.linspace(0, [5.5, 6, 6.5][i % 3], n)
            vals = 0.4 * rng.normal(size=n)
            psi = zoo.graded(jVMC, N, vals, scales, D)
            mkH, strings, prefs = tv.rand_ham(op, rng, N, False)
            Hd = tv.dense(strings, prefs, N, 0.)
            eq = jVMC.util.TDVP(jVMC.sampler.ExactSampler(psi, (N,)), pinvTol=1e-13, pinvCutoff=1e-13, makeReal="real", rhsPrefactor=1.)
            up = np.asarray(eq(psi.get_parameters(), 0., psi=psi, hamiltonian=mkH(), intStep=0))
            amp = np.exp(vals)
            want = -np.real((Hd @ amp) / amp)
            got = up * scales
            p = amp ** 2 / np.sum(amp ** 2)
            ctx.eq(got - got @ p, want - want @ p, "directions above the tolerance were discarded in an ill-conditioned equation", rtol=0, atol=1e-3 * (1 + np.max(np.abs(want))))
            ctx.count("ill_conditioned")
    for i, rng in ctx.cases("lindblad", ctx.n(2, 10)):
        from checks.c12 import Frame, generator, SX, SY, SZ
        N = 2
        with ctx.case("lindblad", i, i):
            povm = op.POVM({"dim": "1D", "L": N}, theta=float(rng.uniform(0, 1)), phi=float(rng.uniform(0, 1)))
            fr = Frame(np.asarray(povm.M), N)
            A = rng.normal(size=(4, 3)) + 1j * rng.normal(size=(4, 3))
            rho = A @ A.conj().T
            rho = 0.8 * rho / np.trace(rho).real + 0.2 * np.eye(4) / 4
            P = np.einsum("aij,ji->a", fr.all("M"), rho).real
            confs = np.array(list(np.ndindex(4, 4)))
            ids = zoo.ids(confs, 4)
            vals = np.zeros(16)
            vals[ids] = np.log(P)
            terms = [("ZZ", (0, 1), 0.9), ("X", (0,), 1.3), ("dephasing", (1,), 0.7), ("decaydown", (0,), 0.5)]
            mats = {"ZZ": ("unitary", np.kron(SZ, SZ)), "X": ("unitary", np.array(SX)), "dephasing": ("dissipative", np.array(SZ)), "decaydown": ("dissipative", (np.array(SX) - 1j * np.array(SY)) / 2)}
            O = op.POVMOperator(povm)
            for nme, s, g in terms:
                O.add({"name": nme, "sites": s, "strength": g})
            psi, _ = zoo.table(jVMC, (N,), 4, "real", rng, values=vals)
            S = jVMC.sampler.ExactSampler(psi, (N,), lDim=4, logProbFactor=1.)
            eq = jVMC.util.TDVP(S, rhsPrefactor=-1., pinvTol=1e-12, pinvCutoff=1e-9, makeReal="real")
            up = np.asarray(eq(psi.get_parameters(), 0., psi=psi, hamiltonian=O, intStep=0))
            W = generator(fr, [(mats[a][0], mats[a][1], s, g) for a, s, g in terms])
            want = (W @ P) / P
            dev = up[ids] - want
            ctx.eq(dev - dev.mean(), np.zeros(16), "variational flow of a complete POVM ansatz differs from the master equation", rtol=0, atol=1e-4 * (1 + np.max(np.abs(want))))
            ctx.count("povm")
            ctx.count("complete_ansatz")
