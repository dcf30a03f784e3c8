"""C06: parallel reductions and work distribution equal the serial reference for every device x rank layout."""
RULE = ("a case = one reduction/distribution call on random data of a random shape, dtype and (per rank different) batch "
        "size; non-trivial when more than one device, rank or sample contributes and the data are not constant")
REQUIRED = {"large_data": 10, "reduction": 50, "distribution": 50, "multi_device": 10, "multi_rank": 10}


def SHARDS(tier):
    lay = [(1, 1), (4, 1), (3, 1), (1, 2), (2, 2), (1, 3), (3, 2), (1, 5)]
    if tier == "thorough":
        lay += [(8, 1), (2, 3), (1, 4), (2, 4), (5, 1), (1, 7)]
    return [{"fn": "run", "dev": d, "ranks": r, "mpi": True, "lay": "%dx%d" % (d, r), "key": "L%dx%d" % (d, r)} for d, r in lay]


def run(ctx):
    import numpy as np
    import jax.numpy as jnp
    import jax
    import jVMC
    import jVMC.mpi_wrapper as mpi
    import jVMC.global_defs as gd

    D, R = ctx.dev, ctx.size
    lay = "%dx%d" % (D, R)

    def mk(rng, shape, kind):
        x = rng.normal(size=shape) * 10. ** rng.uniform(-2, 2) + rng.normal() * 3
        if kind == "c":
            x = x + 1j * rng.normal(size=shape)
        return x

    def reductions(name, i, rng, devs):
        nd = len(devs)
        kind = ["r", "c"][int(rng.integers(2))]
        trail = [(), (1,), (3,), (5,), (2, 3), (2, 1, 2)][int(rng.integers(6))]
        batches = rng.integers(1, 7, size=R)
        if i % 5 == 4:            # sizes that are used in practice
            batches = rng.integers(1, 3000, size=R)
            trail = [(), (1,), (70,), (140,)][int(rng.integers(4))]
            ctx.count("large_data")
        if rng.integers(3) == 0:
            batches[:] = batches[0]
        alld = [mk(rng, (nd, int(b)) + trail, kind) for b in batches]
        off = [0., 0., 1e5][i % 3]            # strongly offset data: the second moment minus the squared mean loses all digits
        if off:
            alld = [x / max(1e-300, max(np.max(np.abs(y)) for y in alld)) * 5 + off * (1 + (.5j if kind == "c" else 0)) for x in alld]
        w = [rng.uniform(0, 1, size=(nd, int(b))) for b in batches]
        if rng.integers(2) == 0:
            for x in w:
                x[rng.uniform(size=x.shape) < 0.25] = 0.
        if sum(x.sum() for x in w) <= 0:
            w[0][:] = 1.
        norm = sum(x.sum() for x in w)
        w = [x / norm for x in w]
        flat = np.concatenate([x.reshape((-1,) + trail) for x in alld])
        fw = np.concatenate([x.ravel() for x in w])
        wt = fw.reshape((-1,) + (1,) * len(trail))
        mean = np.sum(wt * flat, axis=0)
        mine, myw = jnp.array(alld[ctx.rank]), jnp.array(w[ctx.rank])
        sc = np.max(np.abs(flat))
        sig = (name, kind, trail, tuple(int(b) for b in batches), nd, R)
        with ctx.case(name, i, sig, nontrivial=len(flat) > 1, desc={"kind": kind, "trail": trail, "batches": batches, "devices": nd, "ranks": R}):
            ctx.eq(mpi.global_sum(mine), flat.sum(axis=0), "global sum differs from serial sum", rtol=0, atol=1e-11 * sc * len(flat))
            ctx.eq(mpi.global_mean(mine, myw), mean, "global weighted mean differs from serial mean", rtol=0, atol=1e-11 * sc)
            var = np.sum(wt * np.abs(flat - mean) ** 2, axis=0)
            ctx.eq(mpi.global_variance(mine, myw), var, "global variance differs from serial variance", rtol=0, atol=1e-10 * sc ** 2 if not off else 1e-6 * (1 + np.max(np.abs(var))))
            ctx.count("reduction", 3)
            if len(trail) == 1:
                cen = flat - mean
                c = np.einsum("n,nk,nl->kl", fw, np.conj(cen), cen)
                got = np.asarray(mpi.global_covariance(mine, myw))
                ctx.eq(got, c, "global covariance differs from serial connected covariance", rtol=0, atol=1e-10 * sc ** 2 if not off else 1e-6 * (1 + np.max(np.abs(c))))
                ctx.count("reduction")
            g = mpi.gather(mine)
            ctx.eq(g, flat, "gathered data differ from the rank-ordered concatenation", rtol=0, atol=0)
            ctx.count("gather")
            if nd > 1:
                ctx.count("multi_device")
            if R > 1:
                ctx.count("multi_rank")
            # a sum of integers stays exact
            ints = [rng.integers(-1000, 1000, size=(nd, int(b), 2)) for b in batches]
            ctx.eq(mpi.global_sum(jnp.array(ints[ctx.rank])), np.concatenate([x.reshape(-1, 2) for x in ints]).sum(axis=0),
                   "global sum of integers differs", rtol=0, atol=0)

    for i, rng in ctx.cases("reduce", ctx.n(14, 120)):
        reductions("reduce", i, rng, gd.devices())

    # ---- work distribution: every requested sample is handed out, nothing twice
    for i, rng in ctx.cases("distribute", ctx.n(60, 600)):
        n = int(rng.integers(1, 400)) if rng.integers(2) else int(rng.integers(1, 12))
        if i % 6 == 5:
            n = int(10. ** rng.uniform(3, 11))
        ld = [None, 1, 2, 3, 4, 8][int(rng.integers(6))]
        ch = int(rng.integers(1, 9)) if i % 4 else int(rng.integers(9, 300))
        with ctx.case("distribute", i, (n, ld, ch, R), nontrivial=n > 1, desc={"numSamples": n, "localDevices": ld, "chains": ch, "ranks": R}):
            ctx.count("distribution")
            if ld is None:
                mine, tot = mpi.distribute_sampling(n)
                allm = ctx.comm.allgather(int(mine))
                ctx.same(int(tot), n, "announced total of a distribution over ranks differs from the request")
                ctx.same(sum(allm), n, "samples handed out to the ranks do not add up to the request", per_rank=allm)
                ctx.ok(max(allm) - min(allm) <= 1, "unbalanced distribution over ranks", per_rank=allm)
                first = ctx.comm.allgather(int(mpi.first_sample_id()))
                off = [0] + list(np.cumsum(allm)[:-1])
                ctx.same(first, [int(x) for x in off], "first sample ids do not partition the samples", per_rank=allm)
            else:
                spc, tot = mpi.distribute_sampling(n, localDevices=ld, numChainsPerDevice=ch)
                alls = ctx.comm.allgather((int(spc), int(tot)))
                made = sum(s * ld * ch for s, _ in alls)
                ctx.ok(all(t == made for _, t in alls), "announced total differs from the number of samples the ranks will generate", per_rank=alls, made=made)
                ctx.ok(n <= made, "fewer samples than requested", made=made, n=n)
                ctx.ok(made < n + R * ld * ch, "excess samples exceed the rounding to full chains", made=made, n=n)

    # ---- broadcast of arrays whose size only the root knows
    for i, rng in ctx.cases("bcast", ctx.n(6, 40)):
        n = int(rng.integers(0, 50)) if i % 3 else int(rng.integers(5000, 100000))
        root = int(rng.integers(R))
        x = rng.normal(size=n)
        with ctx.case("bcast", i, (n, root, R), nontrivial=n > 0):
            got = mpi.bcast_unknown_size(x if ctx.rank == root else None, root=root)
            ctx.eq(got, x, "broadcast data differ from the root's data", rtol=0, atol=0)
            ctx.count("bcast")

    # ---- switching the set of devices in a running process
    if D > 1:
        all_devices = list(jax.devices())
        for i, rng in ctx.cases("switch", ctx.n(3, 10)):
            k = int(rng.integers(1, D + 1))
            sel = [all_devices[int(j)] for j in rng.permutation(D)[:k]]
            gd.set_pmap_devices(sel)
            try:
                with ctx.case("switchcount", i, (k, "count"), nontrivial=False):
                    ctx.same(gd.device_count(), k, "device count after switching devices")
                    ctx.same([d.id for d in gd.devices()], [d.id for d in sel], "device list after switching devices")
                for j in range(3):
                    reductions("switch", i, ctx.rng("switch", i, j), sel)
                ctx.count("device_switch")
            finally:
                gd.set_pmap_devices(all_devices)
