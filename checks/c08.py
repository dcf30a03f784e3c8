"""C08: evaluation and gradients of a variational state: independent of batching/devices, and the true derivative of log psi."""
RULE = ("a case = one ansatz (library networks, two-network, symmetrised, complex non-holomorphic, table ansaetze) with random parameters, a random number "
        "of configurations and several batch sizes; values are compared with the bare network, gradients with finite differences along random and coordinate "
        "directions of the flat parameter vector; non-trivial when gradients are non-zero")
REQUIRED = {"many_configurations": 5, "values": 120, "directional_derivatives": 100, "batch_variants": 50, "dict_gradients": 10}
ASSUMPTIONS = ["finite differences of step 1e-5 decide derivatives up to 2e-6 relative to the largest derivative"]
NAMES = ["RBM", "CpxRBM", "CpxRBM2d", "FFN", "CNN", "CNN2d", "CNNopen", "CpxCNN", "TwoNets", "RNN", "LSTM", "GRUpovm", "RNN2d", "Sym", "NonHolo",
         "tcpx", "tre", "treal", "SymTwo", "DeadRelu",
         "HoloThenNot", "NotThenHolo", "WeakNonHolo", "CpxRealOut", "HigherOrderNonHolo", "ShapesNonHolo", "ShapesHolo", "ShapesReal"]
NONHOLO = ("NonHolo", "HoloThenNot", "NotThenHolo", "WeakNonHolo", "CpxRealOut", "HigherOrderNonHolo", "ShapesNonHolo")     # gradients_dict is documented as not implemented for them


def SHARDS(tier):
    out = []
    for k in range(6):
        out.append({"fn": "run", "dev": 1, "ranks": 1, "part": k, "parts": 6, "key": "p%d" % k, "lay": "1"})
    out.append({"fn": "run", "dev": 3, "ranks": 1, "part": 0, "parts": 5, "key": "d3", "lay": "3"})
    out.append({"fn": "run", "dev": 2, "ranks": 1, "part": 2, "parts": 4, "key": "d2", "lay": "2"})
    return out


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import flax.linen as nn
    import jVMC
    import zoo
    D = ctx.dev
    zeros = lambda sh: jnp.zeros((D, 1) + tuple(sh), dtype=np.int32)

    def build(name, rng, batchSize):
        if name in ("tcpx", "tre", "treal"):
            psi, _ = zoo.table(jVMC, (3,), 2, name[1:], rng, 1.0, batchSize=batchSize)
            return psi, (3,), 2
        if name.startswith("Shapes"):
            class Shapes(nn.Module):
                """parameter arrays of unusual shapes (scalar, one row, one column), real, holomorphic or neither"""
                which: str

                @nn.compact
                def __call__(self, s):
                    cpx = self.which != "ShapesReal"
                    ini = lambda k, sh: 0.4 * (jax.random.normal(k, sh) + (1j * jax.random.normal(jax.random.split(k)[0], sh) if cpx else 0.))
                    a, b, c, d, e = [self.param(nm, ini, sh) for nm, sh in (("a", ()), ("b", (1, 4)), ("c", (4, 1)), ("d", (2, 1, 2)), ("e", (1,)))]
                    x = 2. * s.ravel() - 1
                    u = jnp.sum(x @ c) * a + jnp.sum(jnp.sin(b[0] * x)) + jnp.sum(d.ravel() * x) ** 2 * e[0]
                    if self.which == "ShapesNonHolo":
                        u = u + (0.4 - 0.3j) * jnp.abs(jnp.sum(b * x) + a) ** 2 + 0.5 * jnp.conj(e[0]) * jnp.sum(d[0]) * x[0] + 0.3j * jnp.real(jnp.sum(c[:, 0] * x))
                    return u * (1. if cpx else 1. + 0.3j)
            psi = jVMC.vqs.NQS(Shapes(which=name), batchSize=batchSize, seed=int(rng.integers(1 << 30)))
            psi(zeros((4,)))
            psi.set_parameters(psi.get_parameters() + 0.3 * jnp.array(rng.normal(size=psi.get_parameters().shape)))
            return psi, (4,), 2
        if name in NONHOLO[1:]:
            class Mixed(nn.Module):
                """complex parameters; the dependence on some of them (or a small part of it) is not holomorphic"""
                which: str

                @nn.compact
                def __call__(self, s):
                    ini = lambda k, sh: (1e-3 if self.which == "HigherOrderNonHolo" else 0.3) * (jax.random.normal(k, sh) + 1j * jax.random.normal(jax.random.split(k)[0], sh))
                    a, b = self.param("a", ini, (4,)), self.param("b", ini, (4,))
                    x = 2. * s.ravel() - 1
                    u, v = jnp.sum(a * x) + 0.2, jnp.sum(b * x) + 0.1j
                    if self.which == "NotThenHolo":
                        u, v = v, u
                    if self.which == "HigherOrderNonHolo":
                        return u + jnp.sin(u - .2) + (1 - .5j) * jnp.abs(jnp.sum(b * x)) ** 4
                    if self.which == "CpxRealOut":
                        return jnp.abs(u) ** 2 + jnp.real(v)
                    eps = 1e-3 if self.which == "WeakNonHolo" else 0.7
                    return u + 0.5 * u ** 2 + (jnp.sin(v) if eps > 0.1 else v) + eps * (1 + 0.5j) * jnp.abs(v) ** 2
            psi = jVMC.vqs.NQS(Mixed(which=name), batchSize=batchSize, seed=int(rng.integers(1 << 30)))
            psi(zeros((4,)))
            if name == "HigherOrderNonHolo":       # of third order in the (small) initial parameters
                psi.set_parameters(1.2e3 * psi.get_parameters())
            elif name == "WeakNonHolo":       # hardly visible at the initial parameters, obvious later
                psi.set_parameters(8. * psi.get_parameters() / np.linalg.norm(np.asarray(psi.get_parameters())))
            else:
                psi.set_parameters(psi.get_parameters() + 0.3 * jnp.array(rng.normal(size=psi.get_parameters().shape)))
            return psi, (4,), 2
        if name == "SymTwo":
            orb = jVMC.util.symmetries.get_orbit_1D(4, "translation", "spinflip")
            psi = jVMC.vqs.NQS((jVMC.nets.RBM(numHidden=2, bias=True), jVMC.nets.FFN(layers=(3,), bias=True)), orbit=orb, batchSize=batchSize, seed=int(rng.integers(1 << 30)))
            psi(zeros((4,)))
            return psi, (4,), 2
        if name == "DeadRelu":
            # real network whose gradient vanishes on the configuration used for initialisation
            psi = jVMC.vqs.NQS(jVMC.nets.RNN1DGeneral(L=3, hiddenSize=1, depth=1, actFun=nn.relu, realValuedOutput=True) if False else
                               jVMC.nets.FFN(layers=(1,), bias=False, actFun=(nn.relu,)), batchSize=batchSize, seed=0)
            for sd in range(40):
                psi = jVMC.vqs.NQS(jVMC.nets.FFN(layers=(1,), bias=False, actFun=(nn.relu,)), batchSize=batchSize, seed=sd)
                psi(zeros((3,)))
                k = jax.tree_util.tree_leaves(psi.parameters)
                if float(jnp.sum(k[0])) > 0:      # configuration 0 -> negative pre-activation
                    break
            return psi, (3,), 2
        return zoo.make_psi(jVMC, name, rng, batchSize=batchSize, spread=0.4)

    todo = [n for j, n in enumerate(NAMES) if j % ctx.spec["parts"] == ctx.spec["part"]]
    reps = ctx.n(2, 6)
    for i, rng in ctx.cases("ansatz", len(todo) * reps):
        name = todo[i % len(todo)]
        n = int(rng.integers(1, 16))
        bs = [1, 2, 3, 5, 1000]
        b0 = int(bs[int(rng.integers(len(bs)))])
        many = i % 3 == 2
        if many:
            n, b0 = int(rng.integers(1001, 1300)), int([1000, 300, 77][int(rng.integers(3))])
            ctx.count("many_configurations")
        desc = dict(ansatz=name, configs_per_device=n, batchSize=b0, devices=D)
        with ctx.case("ansatz", i, sorted(desc.items()), desc=desc):
            psi, shape, lDim = build(name, rng, b0)
            all_b = zoo.basis(shape, lDim)
            c = all_b[rng.integers(0, len(all_b), size=(D, n))]
            cj = jnp.array(c)
            theta = np.asarray(psi.get_parameters()).copy()
            flat = c.reshape((-1,) + tuple(shape))

            def values(th):
                psi.set_parameters(jnp.array(th))
                r = zoo.psi_raw(psi, flat)
                psi.set_parameters(jnp.array(theta))
                return r.reshape((D, n))
            ref = values(theta)
            got = np.asarray(psi(cj))
            ctx.eq(got, ref, "psi(configurations) differs from the network on the single configurations", rtol=1e-11, atol=1e-11)
            ctx.count("values", got.size)
            f, par = psi.get_sampler_net()
            sv = np.asarray(jax.vmap(lambda s: f(par, s))(jnp.array(flat))).reshape((D, n))
            ctx.eq(sv, np.real(ref), "the network used for sampling is not the real part of log psi", rtol=1e-11, atol=1e-11)
            g = np.asarray(psi.gradients(cj))
            ctx.need(g.shape == (D, n, len(theta)), "gradients do not match configurations and parameters", got=g.shape, want=(D, n, len(theta)))
            # derivative along random and coordinate directions
            eps = 1e-5
            dirs = [rng.normal(size=theta.shape) / np.sqrt(len(theta)) for _ in range(2)]
            for k in rng.permutation(len(theta))[:ctx.n(8, 20)]:
                e = np.zeros_like(theta)
                e[k] = 1.
                dirs.append(e)
            scale = max(np.max(np.abs(g)), 1e-3)
            vp = [values(theta + eps * v) for v in dirs]
            vm = [values(theta - eps * v) for v in dirs]
            for v, a, b in zip(dirs, vp, vm):
                d = a - b
                d = np.real(d) + 1j * (np.mod(np.imag(d) + np.pi, 2 * np.pi) - np.pi)
                fd = d / (2 * eps)
                ctx.eq(g @ v, fd, "gradient differs from the derivative of log psi along a parameter direction", rtol=0, atol=2e-6 * max(1., scale) * max(1., np.sum(np.abs(v))),
                       direction=np.argmax(np.abs(v)) if np.count_nonzero(v) == 1 else "random")
                ctx.count("directional_derivatives")
            # dictionary form
            if name not in NONHOLO:
                gd = psi.gradients_dict(cj)
                mp = psi.grad_dict_to_vec_map()
                vec = np.zeros((D, n, len(theta)), dtype=complex)
                hits = np.zeros(len(theta), int)
                for a, m in zip(jax.tree_util.tree_leaves(gd), jax.tree_util.tree_leaves(mp)):
                    m = np.asarray(m)
                    ctx.need(np.asarray(a).shape == (D, n, m.size), "dictionary gradients do not match their index map", got=np.asarray(a).shape, want=(D, n, m.size))
                    vec[..., m] = np.asarray(a)
                    hits[m] += 1
                ctx.ok(np.all(hits == 1), "the index map of the dictionary gradients is not a permutation", hits=hits)
                ctx.eq(vec, g, "dictionary gradients differ from the flat gradients", rtol=1e-12, atol=1e-12)
                ctx.same(str(jax.tree_util.tree_structure(gd)), str(jax.tree_util.tree_structure(psi.params)), "dictionary gradients do not mirror the parameter tree")
                ctx.count("dict_gradients")
            # other batch sizes, other arrangement of the same configurations
            for b1 in [int(x) for x in (rng.permutation([1, 2, 3, 4, n, n + 1, 1000])[:ctx.n(2, 5)] if not many else
                                       [rng.choice([3, 7, 11]), *rng.permutation([50, 499, n - 1, n, 1000])[:ctx.n(1, 5)]])]:
                psi.batchSize = b1
                perm = rng.permutation(D * n)
                c2 = jnp.array(flat[perm].reshape(c.shape))
                ctx.eq(np.asarray(psi(c2)).reshape(-1), ref.reshape(-1)[perm], "values depend on batch size or position", rtol=1e-11, atol=1e-11, batchSize=b1)
                ctx.eq(np.asarray(psi.gradients(c2)).reshape(D * n, -1), g.reshape(D * n, -1)[perm], "gradients depend on batch size or position", rtol=1e-10, atol=1e-11, batchSize=b1)
                ctx.count("batch_variants")
            ctx.eq(np.asarray(psi.get_parameters()), theta, "evaluation changed the parameters", rtol=0, atol=0)
