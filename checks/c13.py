"""C13: measuring a POVM sample returns the quantum expectation values, correlators, variances and errors of the state."""
RULE = ("a case = one random many-body density matrix (or random outcome distribution) whose exact POVM distribution is sampled exactly "
        "or by Monte Carlo and measured; non-trivial when the state is not the maximally mixed one")
REQUIRED = {"large": 8, "quantum_means": 20, "correlators": 40, "errors": 20, "product_states": 6, "mc": 3, "lattice2d": 3, "user_observables": 5, "given_samples": 5}


def SHARDS(tier):
    out = [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in enumerate([1, 2, 3])]
    out += [{"fn": "run", "part": 7, "dev": 1, "ranks": 2, "mpi": True, "key": "p7"}]
    if tier == "thorough":
        out += [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in zip(range(4, 7), [1, 4, 5])]
    return out


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    from lib import zoo
    from checks.c12 import Frame, embed, SX, SY, SZ
    X, Y, Z = (np.array(m, complex) for m in (SX, SY, SZ))
    D, R = ctx.dev, ctx.size
    pauli = {"X": X, "Y": Y, "Z": Z}

    for i, rng in ctx.cases("state", ctx.n(18, 60), cap=ctx.n(60, 500)):
        two = i % 3 == 2
        L = 2 if two else int(rng.integers(2, 4))
        shape = (2, 2) if two else (L,)
        N = int(np.prod(shape))
        th, ph = (0., 0.) if i % 4 == 0 else (float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3)))
        povm = op.POVM({"dim": "2D" if two else "1D", "L": L}, theta=th, phi=ph)
        fr = Frame(np.asarray(povm.M), N)
        d = 2 ** N
        A = rng.normal(size=(d, 2)) + 1j * rng.normal(size=(d, 2))
        rho = A @ A.conj().T
        rho = 0.95 * rho / np.trace(rho).real + 0.05 * np.eye(d) / d
        P = np.einsum("aij,ji->a", fr.all("M"), rho).real          # site 0 most significant
        confs = np.array(list(np.ndindex(*(4,) * N)), dtype=np.int64)
        vals = np.zeros(4 ** N)
        vals[zoo.ids(confs, 4)] = np.log(P) + float(rng.uniform(-5, 5))
        mc = i % 3 == 1
        with ctx.case("state", i, (shape, th, mc, i), desc={"shape": shape, "theta": th, "phi": ph, "mc": mc}):
            psi, _ = zoo.table(jVMC, shape, 4, "real", rng, values=vals)
            if mc:
                ns = 2000
                sam = jVMC.sampler.MCSampler(psi, shape, jax.random.PRNGKey(int(rng.integers(1 << 30))), updateProposer=jVMC.sampler.propose_POVM_outcome,
                                             numChains=5, numSamples=ns, thermalizationSweeps=2, sweepSteps=N, mu=1, logProbFactor=1.)
            else:
                sam = jVMC.sampler.ExactSampler(psi, shape, lDim=4, logProbFactor=1.)
            H = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
            H = H + H.conj().T
            obs = dict(povm.observables)
            obs["H"] = op.matrix_to_povm(jnp.array(H), povm.M, povm.T_inv, mode=["observable", "obs"][i % 2])
            mats = dict(pauli, H=H)
            c, lp, p = sam.sample()
            res = op.measure_povm(povm, sam, c, p, observables=obs)
            ctx.count("given_samples")
            ctx.count("user_observables")
            cc, pp = np.asarray(c), np.asarray(p)
            if R > 1:
                cc = np.concatenate([x.reshape((-1, N)) for x in ctx.comm.allgather(cc)])
                pp = np.concatenate([x.ravel() for x in ctx.comm.allgather(pp)])
            cc, pp = cc.reshape(-1, N), pp.ravel()
            ctx.eq(pp.sum(), 1., "weights of the measured sample do not add up to one")
            nsam = float(sam.get_last_number_of_samples())
            for nm, A1 in mats.items():
                o = np.array([np.trace(A1 @ fr.Dual[a]).real for a in range(4)])
                per = o[cc].reshape((-1,) + shape)
                avg = per.reshape(len(cc), -1).mean(axis=1)
                mean = np.sum(pp * avg)
                var = np.sum(pp * (avg - mean) ** 2)
                sc = np.max(np.abs(o)) ** 2
                ctx.eq(res[nm]["mean"], mean, "measured mean differs from the weighted sample mean", rtol=0, atol=1e-9 * sc, obs=nm)
                ctx.eq(res[nm]["variance"], var, "measured variance differs from the weighted sample variance", rtol=0, atol=1e-9 * sc ** 2, obs=nm)
                ctx.eq(res[nm]["MC_error"], np.sqrt(var) / np.sqrt(nsam), "reported error is not the standard error of the mean", rtol=0, atol=1e-9 * sc, obs=nm)
                ctx.count("errors")
                q = np.mean([np.trace(rho @ embed(A1, (k,), N)).real for k in range(N)])
                if not mc:
                    ctx.eq(mean, q, "exactly sampled POVM mean differs from the quantum expectation value", rtol=0, atol=1e-8 * sc, obs=nm)
                    ctx.eq(res[nm]["mean"], q, "measured mean differs from the quantum expectation value", rtol=0, atol=1e-8 * sc, obs=nm)
                    ctx.count("quantum_means")
                for l in range(L):
                    key = nm + "_corr_L%d" % l
                    ctx.need(key in res, "correlator missing in the result", key=key, keys=list(res))
                    prod = (per * np.roll(per, l, axis=1)).reshape(len(cc), -1).mean(axis=1)
                    cm = np.sum(pp * prod)
                    cv = np.sum(pp * (prod - cm) ** 2)
                    ctx.eq(res[key]["mean"], cm - mean ** 2, "measured connected correlator differs from its sample definition", rtol=0, atol=1e-8 * sc, obs=key)
                    ctx.eq(res[key]["variance"], cv, "variance of a correlator differs from its sample definition", rtol=0, atol=1e-8 * sc ** 2, obs=key)
                    ctx.eq(res[key]["MC_error"], np.sqrt(cv) / np.sqrt(nsam), "reported error of a correlator is not the standard error", rtol=0, atol=1e-8 * sc, obs=key)
                    ctx.count("correlators")
                    if l > 0 and not mc:
                        grid = np.arange(N).reshape(shape)
                        nb = np.roll(grid, l, axis=0)
                        pairs = list(zip(grid.ravel(), nb.ravel()))
                        qc = np.mean([np.trace(rho @ embed(A1, (int(a),), N) @ embed(A1, (int(b),), N)).real for a, b in pairs])
                        ctx.eq(res[key]["mean"], qc - q ** 2, "measured correlator differs from the quantum correlator", rtol=0, atol=1e-7 * sc, obs=key)
            # measuring without handing over samples: the observables of the POVM
            if i % 2:
                povm.observables["mine"] = obs["H"]
            r2 = op.measure_povm(povm, sam)
            ctx.ok(set(povm.observables) <= set(r2), "observables of the POVM missing", keys=list(r2))
            if i % 2 and not mc:
                ctx.eq(r2["mine"]["mean"], res["H"]["mean"], "observable added to the POVM differs", atol=1e-8)
            if not mc:
                for nm in pauli:
                    ctx.eq(r2[nm]["mean"], res[nm]["mean"], "measurement with own sampling differs", atol=1e-8)
            else:
                for nm, A1 in pauli.items():
                    q = np.mean([np.trace(rho @ embed(A1, (k,), N)).real for k in range(N)])
                    # very wide statistical bound: independent check that the MC measurement is about this state
                    e = float(r2[nm]["MC_error"])
                    ctx.ok(0 < e < 0.2 and abs(float(r2[nm]["mean"]) - q) < 0.5, "Monte Carlo POVM measurement far from the quantum value", got=r2[nm], want=q)
                ctx.count("mc")
            if two:
                ctx.count("lattice2d")

    # ---- larger lattices: any distribution of outcomes, judged by the sample it gave
    for i, rng in ctx.cases("large", ctx.n(3, 10)):
        two, L = [(False, 9), (True, 3), (True, 4), (False, 14)][(i + ctx.spec["part"]) % 4]
        shape = (L, L) if two else (L,)
        N = int(np.prod(shape))
        povm = op.POVM({"dim": "2D" if two else "1D", "L": L}, theta=float(rng.uniform(-3, 3)), phi=float(rng.uniform(-3, 3)))
        Dual = Frame(np.asarray(povm.M), 1).Dual
        with ctx.case("large", i, (shape, i), desc={"shape": shape}):
            psi = jVMC.vqs.NQS(jVMC.nets.FFN(layers=(6,), bias=True), seed=int(rng.integers(1 << 30)))
            psi(jnp.zeros((D, 1) + shape, dtype=np.int32))
            q = np.asarray(psi.get_parameters())
            psi.set_parameters(jnp.array(q + 0.3 * rng.normal(size=q.shape)))
            sam = jVMC.sampler.MCSampler(psi, shape, jax.random.PRNGKey(int(rng.integers(1 << 30))), updateProposer=jVMC.sampler.propose_POVM_outcome,
                                         numChains=5, numSamples=700, thermalizationSweeps=2, sweepSteps=N, mu=[1, .7][i % 2], logProbFactor=1.)
            c, lp, p = sam.sample()
            res = op.measure_povm(povm, sam, c, p)
            cc = np.concatenate([x.reshape((-1, N)) for x in ctx.comm.allgather(np.asarray(c))]) if R > 1 else np.asarray(c).reshape(-1, N)
            pp = np.concatenate([x.ravel() for x in ctx.comm.allgather(np.asarray(p))]) if R > 1 else np.asarray(p).ravel()
            for nm, A1 in pauli.items():
                o = np.array([np.trace(A1 @ Dual[a]).real for a in range(4)])
                per = o[cc].reshape((-1,) + shape)
                avg = per.reshape(len(cc), -1).mean(axis=1)
                mean = np.sum(pp * avg)
                var = np.sum(pp * (avg - mean) ** 2)
                ctx.eq(res[nm]["mean"], mean, "measured mean differs from the weighted sample mean (larger lattice)", rtol=0, atol=1e-8, obs=nm)
                ctx.eq(res[nm]["variance"], var, "measured variance differs from the weighted sample variance (larger lattice)", rtol=0, atol=1e-8, obs=nm)
                ctx.eq(res[nm]["MC_error"], np.sqrt(var / len(pp)), "reported error is not the standard error of the mean (larger lattice)", rtol=0, atol=1e-8, obs=nm)
                for l in range(L):
                    key = nm + "_corr_L%d" % l
                    ctx.need(key in res, "correlator missing in the result", key=key, keys=list(res))
                    prod = (per * np.roll(per, l, axis=1)).reshape(len(cc), -1).mean(axis=1)
                    cm = np.sum(pp * prod)
                    ctx.eq(res[key]["mean"], cm - mean ** 2, "measured connected correlator differs from its sample definition (larger lattice)", rtol=0, atol=1e-8, obs=key)
                    ctx.eq(res[key]["variance"], np.sum(pp * (prod - cm) ** 2), "variance of a correlator differs from its sample definition (larger lattice)", rtol=0, atol=1e-7, obs=key)
                    ctx.count("correlators")
            ctx.count("large")

    for i, rng in ctx.cases("product", ctx.n(2, 8)):
        th, ph = (0., 0.) if i == 0 else (float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3)))
        povm = op.POVM({"dim": "1D", "L": 2}, theta=th, phi=ph)
        with ctx.case("product", i, (th, ph)):
            M = np.asarray(povm.M)
            for ax, A in (("x", X), ("y", Y), ("z", Z)):
                for sg, nm in ((1, "up"), (-1, "down")):
                    rho = (np.eye(2) + sg * A) / 2
                    want = np.einsum("aij,ji->a", M, rho).real
                    got = np.asarray(op.povm.get_1_particle_distributions(ax + "_" + nm, povm))
                    ctx.eq(got, want, "one-particle distribution differs from the Born rule", state=ax + nm, atol=1e-9)
                    for on, B in pauli.items():
                        ctx.eq(np.sum(got * np.asarray(povm.observables[on])), np.trace(rho @ B).real, "observable of a product state is wrong", atol=1e-9, state=ax + nm, obs=on)
                    ctx.count("product_states")
            ctx.raises(ValueError, lambda: op.povm.get_1_particle_distributions("w_up", povm), "unknown state accepted")
