"""C14: symmetry orbits are groups with characters and symmetrised ansaetze transform accordingly."""
RULE = ("a case = one lattice x set of symmetries x quantum numbers (orbit compared with the group generated by the elementary operations) "
        "or one ansatz symmetrised over such an orbit, evaluated on basis states and all their images; non-trivial when the group has more "
        "than one element")
REQUIRED = {"large_lattice": 8, "groups": 30, "products": 600, "symmetrised": 20, "covariance": 500, "complex_character": 3, "large_amplitudes": 4, "cnn": 8,
            "cnnsym": 3, "lDim4": 2, "real_ansatz": 2, "init_net": 10, "init_net_values": 6}


def SHARDS(tier):
    out = [{"fn": "groups", "dev": 1, "key": "g"}]
    out += [{"fn": "nets", "part": p, "dev": d, "key": "n%d" % p} for p, d in enumerate([1, 2, 1])]
    out += [{"fn": "cnn", "dev": 1, "key": "c"}, {"fn": "initnet", "dev": 2, "key": "i"}]
    if tier == "thorough":
        out += [{"fn": "nets", "part": p, "dev": d, "key": "n%d" % p} for p, d in zip(range(3, 8), [1, 3, 1, 4, 1])]
    return out


def generated(gens, n):
    """group generated by signed permutation matrices with multiplicative factors -> dict bytes -> (matrix, factor); None if inconsistent"""
    import numpy as np
    one = np.eye(n, dtype=np.int64)
    seen = {one.tobytes(): (one, 1.0 + 0j)}
    todo = [one.tobytes()]
    while todo:
        m, f = seen[todo.pop()]
        for g, fg in gens:
            x, fx = m @ g, f * fg
            k = x.tobytes()
            if k in seen:
                if abs(seen[k][1] - fx) > 1e-9:
                    return None
            else:
                seen[k] = (x, fx)
                todo.append(k)
    return seen


def generators(dim, L, names, fac):
    """elementary operations on configurations; a translation moves the configuration towards higher indices"""
    import numpy as np
    n = L if dim == 1 else L * L
    idx = np.arange(n).reshape((L,) if dim == 1 else (L, L))

    def mat(src):       # new[i] = old[src[i]]
        m = np.zeros((n, n), dtype=np.int64)
        m[np.arange(n), src.ravel()] = 1
        return m
    out = []
    if "translation" in names:
        for ax in range(dim):
            out.append((mat(np.roll(idx, 1, axis=ax)), fac.get("translation", 1.)))
    if "reflection" in names:
        for ax in range(dim):
            out.append((mat(np.flip(idx, axis=ax)), fac.get("reflection", 1.)))
    if "rotation" in names and dim == 2:
        # by 90 degrees: the orientation is immaterial for the factors that are allowed here together with reflections
        out.append((mat(idx[::-1, :].T), fac.get("rotation", 1.)))
    if "spinflip" in names:
        out.append((-np.eye(n, dtype=np.int64), fac.get("spinflip", 1.)))
    return out, n


def pick(rng, dim, Lmax):
    import numpy as np
    while True:
        L = int(rng.integers(1, Lmax + 1))
        names = [k for k in (["translation", "reflection", "spinflip"] + (["rotation"] if dim == 2 else [])) if rng.integers(2)]
        fac = {}
        for k in names:
            if rng.integers(2):
                fac[k] = {"translation": np.exp(2j * np.pi * int(rng.integers(min(1, L - 1), L)) / L), "reflection": -1., "spinflip": -1.,
                          "rotation": [-1., 1j, -1j][int(rng.integers(3))]}[k]
        gens, n = generators(dim, L, names, fac)
        grp = generated(gens, n)
        if grp is not None:          # the factors are a character of the group
            return L, names, fac, grp, n


def library_orbit(jVMC, dim, L, names, fac, rng):
    names = list(names)
    rng.shuffle(names)
    f = jVMC.util.symmetries.get_orbit_1D if dim == 1 else jVMC.util.symmetries.get_orbit_2D_square
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(L, *names, **{k + "_factor": v for k, v in fac.items()})


def groups(ctx):
    import numpy as np
    import jVMC
    for i, rng in ctx.cases("group", ctx.n(80, 400)):
        dim = 1 + i % 2
        L, names, fac, grp, n = pick(rng, dim, 7 if dim == 1 else 4)
        if i >= 64:         # larger lattices
            while L < (8 if dim == 1 else 5) or len(grp) < 5:
                L, names, fac, grp, n = pick(rng, dim, 24 if dim == 1 else 6)
            ctx.count("large_lattice")
        if i < 12:          # every quantum number of the translations on small lattices, alone
            L = 2 + i // 2 % 3
            q = 1 + i % (L - 1) if L > 2 else 1
            names, fac = ["translation"], {"translation": np.exp(2j * np.pi * q / L)}
            gens, n = generators(dim, L, names, fac)
            grp = generated(gens, n)
        with ctx.case("group", i, (dim, L, tuple(names), str(fac)), nontrivial=len(grp) > 1, desc={"dim": dim, "L": L, "symmetries": names, "factors": fac}):
            orb = library_orbit(jVMC, dim, L, names, fac, rng)
            O, F = np.asarray(orb.orbit).astype(np.int64), np.asarray(orb.factor)
            ctx.need(O.shape == (len(grp), n, n), "number of symmetry operations differs from the order of the group", got=O.shape, want=len(grp))
            ctx.need(F.shape == (len(grp),), "number of factors differs from the order of the group", got=F.shape)
            ok = np.all(np.abs(O).sum(axis=1) == 1) and np.all(np.abs(O).sum(axis=2) == 1)
            ctx.ok(ok, "a symmetry operation is not a (signed) permutation of the sites")
            keys = [o.tobytes() for o in O]
            ctx.ok(len(set(keys)) == len(keys), "a symmetry operation occurs twice")
            ctx.need(set(keys) == set(grp), "symmetry operations differ from the group generated by the elementary operations",
                     missing=len(set(grp) - set(keys)), extra=len(set(keys) - set(grp)))
            ctx.eq(F, [grp[k][1] for k in keys], "factor of a symmetry operation differs from the character of the chosen quantum numbers", atol=1e-9)
            # closure and multiplicativity, directly on what the library returned
            look = dict(zip(keys, F))
            for _ in range(min(200, len(O) ** 2)):
                a, b = (int(x) for x in rng.integers(len(O), size=2))
                k = (O[a] @ O[b]).tobytes()
                if not (k in look and abs(look[k] - F[a] * F[b]) < 1e-9):
                    ctx.ok(False, "product of two symmetry operations is not in the orbit with the product of the factors", a=O[a], b=O[b])
                    break
                ctx.count("products")
            ctx.count("groups")


def apply(m, s):
    """signed permutation on a 0/1 (or, without flips, 0..lDim-1) configuration"""
    import numpy as np
    if np.any(m < 0):
        return (((m @ (2 * s.ravel() - 1)) + 1) // 2).reshape(s.shape)
    return (m @ s.ravel()).reshape(s.shape)


def nets(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    from lib import zoo
    n = jVMC.nets
    D = ctx.dev
    for i, rng in ctx.cases("sym", ctx.n(16, 60), cap=ctx.n(60, 500)):
        dim = 1 + (i % 3 == 2)
        lDim = 4 if i % 5 == 4 else 2
        while True:
            L, names, fac, grp, N = pick(rng, dim, (3 if lDim == 4 else 6) if dim == 1 else (2 if lDim == 4 else 3))
            if len(grp) > 1 and not (lDim == 4 and "spinflip" in names) and (i % 4 or "translation" in fac and L > 2):
                break
        if i % 8 == 7:      # larger lattices
            lDim = 2
            while L < (8 if dim == 1 else 4) or len(grp) < 5:
                L, names, fac, grp, N = pick(rng, dim, 14 if dim == 1 else 5)
            ctx.count("large_lattice")
        if i % 12 == 2:     # averages over many images
            lDim = 2
            while len(grp) <= 16:
                L, names, fac, grp, N = pick(rng, dim, 3)
        shape = (L,) if dim == 1 else (L, L)
        avg = ["exp", "exp", "sep", "log"][i % 4]
        if avg != "exp":
            fac = {}
            grp = generated(*generators(dim, L, names, fac))
        big = i % 3 == 1
        kind = ["table", "rbm"][int(rng.integers(2)) if not big else 0] if N <= 9 or lDim == 4 else "rbm"
        if lDim == 4:
            kind = "table"
        with ctx.case("sym", i, (dim, L, tuple(names), str(fac), avg, kind, lDim), desc={"dim": dim, "L": L, "symmetries": names, "factors": fac, "avg": avg, "ansatz": kind, "lDim": lDim, "large": big}):
            orb = library_orbit(jVMC, dim, L, names, fac, rng)
            if kind == "rbm" and rng.integers(2):
                kind = "real"         # real parameters and a real logarithm
                ctx.count("real_ansatz")
            net = {"table": zoo.TableCpx(n=lDim ** N, lDim=lDim), "rbm": n.CpxRBM_Nospinflip(numHidden=3, bias=True), "real": n.FFN(layers=(4,), bias=True, actFun=(jnp.tanh,))}[kind]
            fun = {"exp": n.avgFun_Coefficients_Exp, "sep": n.avgFun_Coefficients_Sep, "log": n.avgFun_Coefficients_Log}[avg]
            if i % 2:
                psi = jVMC.vqs.NQS(net, orbit=orb, avgFun=fun, batchSize=int(rng.choice([2, 7, 100])), seed=i)
            else:
                psi = jVMC.vqs.NQS(n.SymNet(net=net, orbit=orb, avgFun=fun), batchSize=100, seed=i)
            psi(jnp.zeros((D, 1) + shape, dtype=np.int32))
            p = np.asarray(psi.get_parameters())
            psi.set_parameters(jnp.array(rng.normal(size=p.shape) * (0.5 if kind == "rbm" else 1.)))
            if kind == "table" and big:       # common offset of the log-amplitudes, far outside of the exponential's range
                q = np.asarray(psi.get_parameters()).copy()
                if rng.integers(2):
                    q[:len(q) // 2] += 900. * (1 if rng.integers(2) else -1)
                else:                         # or a dynamic range far beyond it
                    q[:len(q) // 2] += rng.uniform(-1000, 1000, size=len(q) // 2)
                psi.set_parameters(jnp.array(q))
                ctx.count("large_amplitudes")
            full_n = lDim ** N if N < 40 else 2 ** 40
            sel = np.arange(full_n) if full_n <= 64 else rng.integers(0, full_n, size=12)
            conf = np.stack([(sel // lDim ** k) % lDim for k in range(N)], axis=-1).reshape((-1,) + shape).astype(np.int32)
            mats = [m for m, _ in grp.values()]
            chis = np.array([f for _, f in grp.values()])
            sub = list(range(len(mats))) if len(mats) <= 8 else [int(x) for x in rng.choice(len(mats), size=8, replace=False)]
            imgs = np.array([[apply(mats[k], s) for k in sub] for s in conf])
            allc = np.concatenate([conf, imgs.reshape((-1,) + shape)])
            m = (-len(allc)) % D
            padded = np.concatenate([allc, allc[:m]]) if m else allc
            got = np.asarray(psi(zoo.spread_over(padded, D))).reshape(-1)[:len(allc)]
            base, image = got[:len(conf)], got[len(conf):].reshape(len(conf), len(sub))
            # definition, through the plain network
            inner = jax.jit(jax.vmap(lambda pp, s: net.apply(pp, s), in_axes=(None, 0)))
            pin = {"params": psi.parameters["params"]["net"]}
            orbitconf = np.array([[apply(mm, s) for mm in mats] for s in conf])
            co = np.asarray(inner(pin, jnp.asarray(orbitconf.reshape((-1,) + shape)))).reshape(len(conf), len(mats))
            ref = co.real.max(axis=1)
            if avg == "exp":
                amp = np.sum(chis * np.exp(co - ref[:, None]), axis=1)
                norm = np.sum(np.abs(np.exp(co - ref[:, None])), axis=1)
                ga = np.exp(base - ref)
                # a global constant is immaterial; determine it from the largest amplitude
                j = int(np.argmax(np.abs(amp) / norm))
                if np.abs(amp[j]) < 1e-9 * norm[j]:      # no state in this sector
                    ctx.ok(np.all(np.abs(ga) < 1e-6 * norm), "amplitude outside of the symmetry sector", got=base)
                    continue
                ctx.need(np.isfinite(ga[j]) and abs(ga[j]) > 0, "symmetrised amplitude vanishes or overflows", got=base[j], want=amp[j], ref=ref[j])
                c = ga[j] / amp[j]
                ctx.ok(abs(c.imag) < 1e-8 * abs(c) and c.real > 0, "symmetrised amplitude has a wrong phase", ratio=c)
                ctx.eq(ga, c * amp, "symmetrised amplitude differs from the character-weighted sum over the orbit", rtol=1e-8, atol=1e-9 * float(np.max(norm)))
                for a in range(len(conf)):
                    if abs(amp[a]) > 1e-3 * norm[a]:
                        ratio = np.exp(image[a] - base[a])
                        ctx.eq(ratio, 1. / chis[sub], "amplitude of the image of a configuration is not related by the character", atol=1e-6, s=conf[a])
                        ctx.count("covariance", len(sub))
            else:
                if avg == "sep":
                    r = 0.5 * (np.log(np.mean(np.exp(2 * (co.real - ref[:, None])), axis=1))) + ref
                    z = np.mean(np.exp(1j * co.imag), axis=1)
                    ctx.eq(base.real, r, "symmetrised probability differs from the orbit average of probabilities", atol=1e-8)
                    g = np.abs(z) > 1e-6
                    ctx.eq(np.exp(1j * base.imag[g]), (z / np.abs(np.where(g, z, 1.)))[g], "symmetrised phase differs from the phase of the orbit average", atol=1e-7)
                else:
                    ctx.eq(base, co.mean(axis=1), "symmetrised log-amplitude differs from the orbit average", atol=1e-8)
                    g = np.ones(len(conf), bool)
                ctx.eq(image.real, np.repeat(base.real[:, None], len(sub), axis=1), "amplitude of a symmetrised ansatz changes under a symmetry operation", atol=1e-7)
                ctx.eq(np.exp(1j * image.imag[g]), np.exp(1j * np.repeat(base.imag[g][:, None], len(sub), axis=1)), "phase of a symmetrised ansatz changes under a symmetry operation", atol=1e-6)
                ctx.count("covariance", len(conf) * len(sub))
            if np.max(np.abs(chis.imag)) > 1e-6:
                ctx.count("complex_character")
            if lDim == 4:
                ctx.count("lDim4")
            ctx.count("symmetrised")


def cnn(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import flax.linen as fnn
    import jVMC
    from lib import zoo
    n = jVMC.nets
    for i, rng in ctx.cases("cnn", ctx.n(8, 40), cap=ctx.n(60, 400)):
        two = i % 2 == 1
        shape = (int(rng.integers(2, 5)), int(rng.integers(2, 4))) if two else (int(rng.integers(3, 8)),)
        if i % 4 >= 2:
            shape = (int(rng.integers(5, 8)), int(rng.integers(4, 7))) if two else (int(rng.integers(9, 20)),)
        F = tuple(int(rng.integers(1, x + 2)) for x in shape)
        ch = tuple(int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 4))))
        cpx = bool((i // 2) % 2)
        cls = n.CpxCNN if cpx else n.CNN
        kw = dict(F=F, channels=ch, strides=(1,) * len(shape), bias=bool(rng.integers(2)), firstLayerBias=bool(rng.integers(2)))
        with ctx.case("cnn", i, (cpx, shape, F, ch), desc=dict(kw, shape=shape, complex=cpx)):
            psi = jVMC.vqs.NQS(cls(**kw), seed=i)
            S = rng.integers(0, 2, size=(6,) + shape).astype(np.int32)
            psi(jnp.asarray(S)[None])
            p = np.asarray(psi.get_parameters())
            psi.set_parameters(jnp.array(p + 0.3 * rng.normal(size=p.shape)))
            v0 = np.asarray(psi(jnp.asarray(S)[None]))[0]
            for ax in range(len(shape)):
                for sh in range(1, shape[ax]):
                    v = np.asarray(psi(jnp.asarray(np.roll(S, sh, axis=1 + ax))[None]))[0]
                    ctx.eq(v, v0, "convolutional ansatz with periodic boundary is not translation invariant", rtol=1e-9, atol=1e-10, axis=ax, shift=sh)
            ctx.count("cnn")
    for i, rng in ctx.cases("cnnsym", ctx.n(4, 20), cap=ctx.n(40, 300)):
        dim = 1 + i % 2
        while True:
            L, names, fac, grp, N = pick(rng, dim, 5 if dim == 1 else 3)
            if len(grp) > 1 and L > 1:
                break
        grp = generated(*generators(dim, L, names, {}))
        shape = (L,) * dim
        with ctx.case("cnnsym", i, (dim, L, tuple(names)), desc={"dim": dim, "L": L, "symmetries": names}):
            orb = library_orbit(jVMC, dim, L, names, {}, rng)
            net = n.CpxCNNSym(orbit=orb, F=(2,) * dim, channels=(2,), strides=(1,) * dim)
            psi = jVMC.vqs.NQS(net, seed=i)
            S = rng.integers(0, 2, size=(4,) + shape).astype(np.int32)
            psi(jnp.asarray(S)[None])
            p = np.asarray(psi.get_parameters())
            psi.set_parameters(jnp.array(p + 0.3 * rng.normal(size=p.shape)))
            v0 = np.asarray(psi(jnp.asarray(S)[None]))[0]
            mats = [m for m, _ in grp.values()]
            for k in (range(len(mats)) if len(mats) <= 16 else rng.choice(len(mats), size=16, replace=False)):
                T = np.array([apply(mats[int(k)], s) for s in S])
                ctx.eq(np.asarray(psi(jnp.asarray(T)[None]))[0], v0, "symmetric convolutional ansatz changes under a symmetry operation", rtol=1e-9, atol=1e-10, op=mats[int(k)])
            ctx.count("cnnsym")


def initnet(ctx):
    """networks built from a description: the requested symmetries hold, the description stays usable"""
    import copy
    import numpy as np
    import jax.numpy as jnp
    import jVMC
    from lib import zoo
    D = ctx.dev
    for i, rng in ctx.cases("init_net", ctx.n(14, 60), cap=ctx.n(90, 300)):
        two = i % 3 == 2
        L = 2 if two else 4
        shape = (L, L) if two else (L,)
        kinds = ["cpx", "two", "rbm", "cnn", "ffn", "rnn"] if not two else ["cpx", "cnn", "two", "rnn2", "rcnn"]
        kind = kinds[(i // 3 + i % 3) % len(kinds)]
        F = (2,) * len(shape)
        st = (1,) * len(shape)
        descr = {"cpx": {"net1": {"type": "CpxRBM", "parameters": {"numHidden": 2, "bias": True}}},
                 "rbm": {"net1": {"type": "RBM", "parameters": {"numHidden": 3, "bias": True}}},
                 "two": {"net1": {"type": "FFN", "parameters": {"layers": (3,), "bias": True, "actFun": ["tanh"]}}, "net2": {"type": "FFN", "parameters": {"layers": (3, 2), "bias": True, "actFun": ["elu", "tanh"]}}},
                 "cnn": {"net1": {"type": "CpxCNN", "parameters": {"F": F, "channels": (2,), "strides": st, "actFun": ["poly6"]}}},
                 "rcnn": {"net1": {"type": "CNN", "parameters": {"F": F, "channels": (2,), "strides": st, "actFun": ["tanh"]}}},
                 "ffn": {"net1": {"type": "FFN", "parameters": {"layers": (4,), "actFun": ["tanh"]}}},
                 "rnn": {"net1": {"type": "RNN", "parameters": {"L": L, "hiddenSize": 3, "depth": 1}}, "net2": {"type": "FFN", "parameters": {"layers": (3,), "actFun": ["elu"]}}},
                 "rnn2": {"net1": {"type": "RNN2D", "parameters": {"L": L, "hiddenSize": 3, "depth": 1, "actFun": "elu"}}}}[kind]
        names = [k for k in (["translation", "reflection", "spinflip"] + (["rotation"] if two else [])) if rng.integers(2)]
        if "rnn" in kind:
            names = [k for k in names if k != "spinflip"]
        fac = {}
        if kind in ("cpx", "two", "rbm", "ffn"):
            for k in names:
                if rng.integers(3):
                    fac[k] = {"translation": np.exp(2j * np.pi * int(rng.integers(1, L)) / L), "reflection": -1., "spinflip": -1., "rotation": -1.}[k]
            if kind in ("cpx", "rbm") and "spinflip" in fac and "bias" not in str(descr):
                fac.pop("spinflip")
        if generated(*generators(len(shape), L, names, fac)) is None:
            fac = {}
        if i == 1:
            names, fac = ["translation"], {"translation": 1j}
        descr = dict(descr, batch_size=50, **{k: True for k in names}, **{k + "_factor": v for k, v in fac.items()})
        keep = copy.deepcopy(descr)
        grp = generated(*generators(len(shape), L, names, fac))
        with ctx.case("init_net", i, (kind, tuple(names), shape, str(fac)), desc={"descr": str(keep), "dims": shape}):
            psi = jVMC.util.util.init_net(descr, shape, seed=i)
            ctx.ok(str(descr) == str(keep), "the network description of the caller was modified", before=str(keep), after=str(descr))
            psi2 = jVMC.util.util.init_net(descr, shape, seed=i)
            p = np.asarray(psi.get_parameters())
            ctx.eq(np.asarray(psi2.get_parameters()), p, "a second network from the same description and seed differs", rtol=0, atol=0)
            psi.set_parameters(jnp.array(p + 0.4 * rng.normal(size=p.shape)))
            S = rng.integers(0, 2, size=(6,) + shape).astype(np.int32)
            ev = lambda c: np.asarray(psi(zoo.spread_over(np.asarray(c), D))).reshape(-1)
            v0 = ev(S)
            top = np.max(v0.real)
            # the definition: character-weighted sum of the bare amplitudes over the orbit
            if not kind.startswith("rnn"):
                inner = psi.net.net
                pin = {"params": psi.parameters["params"]["net"]}
                co = np.array([[np.asarray(inner.apply(pin, jnp.asarray(apply(m, s)))) for m, _ in grp.values()] for s in S])
                amp = np.sum(np.array([f for _, f in grp.values()]) * np.exp(co), axis=1)
                size = np.sum(np.abs(np.exp(co)), axis=1)
                j = int(np.argmax(np.abs(amp)))
                if abs(amp[j]) < 1e-6 * size[j]:
                    continue
                top = v0.real[j]
                c = np.exp(v0[j]) / amp[j]
                ctx.eq(np.exp(v0), c * amp, "network built from a description is not the character-weighted sum over the orbit", rtol=1e-8, atol=1e-9 * abs(c) * float(np.max(size)))
                ctx.count("init_net_values")
            if kind.startswith("rnn"):
                allc = zoo.basis(shape)
                ctx.eq(np.sum(np.exp(2 * ev(allc).real)), 1., "symmetrised autoregressive network is not normalised", atol=1e-8)
            for m, f in grp.values():
                v = ev(np.array([apply(m, s) for s in S]))
                # amplitudes that vanish by symmetry are excluded
                g = v0.real > top - 12
                ctx.eq(np.exp(v - v0)[g], np.full(len(S), 1. / f)[g], "network built from a description lacks the requested symmetry", atol=1e-6, op=m)
            ctx.count("init_net")
