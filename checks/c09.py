"""C09: the flat parameter vector is a faithful coordinate system of the ansatz."""
RULE = ("a case = a history of set/get/update calls on one ansatz interleaved with evaluations, gradients and sampling; the vector is shadowed by a plain numpy vector and the "
        "state by a second instance; non-trivial when the parameters differ from their initial values")
REQUIRED = {"operations": 90, "coordinates_probed": 60, "instances_compared": 8}


def SHARDS(tier):
    return [{"fn": "run", "dev": 1 if k != 4 else 2, "ranks": 1, "part": k, "parts": 5, "key": "p%d" % k, "lay": str(k)} for k in range(5)]


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import flax
    import flax.linen as nn
    import jVMC
    import zoo
    D = ctx.dev
    NAMES = ["RBM", "CpxRBM", "FFN", "CNN", "CpxCNN", "TwoNets", "RNN", "GRUpovm", "RNN2d", "Sym", "NonHolo", "const", "BigRBM", "BigTwo"]

    class ConstNet(nn.Module):
        @nn.compact
        def __call__(self, s):
            a = self.param("a", lambda k, sh: jax.random.normal(k, sh), (4, 2))
            b = self.param("b", lambda k, sh: jax.random.normal(k, sh), (4,))
            c = self.variable("const", "c", lambda: jnp.array([0.3, -0.7]))
            x = 2 * s.ravel() - 1.
            return jnp.sum(jnp.tanh(x @ a) * c.value) + 1j * jnp.sum(x * b)

    def ctor(name):
        if name == "const":
            return (lambda: ConstNet()), (4,), 2
        return zoo.lib_nets(jVMC)[name]

    todo = [x for j, x in enumerate(NAMES) if j % ctx.spec["parts"] == ctx.spec["part"]]
    for i, rng in ctx.cases("history", len(todo) * ctx.n(1, 6)):
        name = todo[i % len(todo)]
        desc = dict(ansatz=name, rep=i // len(todo))
        with ctx.case("history", i, sorted(desc.items()), desc=desc):
            mk, shape, lDim = ctor(name)
            seed = int(rng.integers(1 << 30))
            psi = jVMC.vqs.NQS(mk(), seed=seed)
            ctx.ok(psi.get_parameters() is None, "parameters before initialisation")
            ctx.raises(RuntimeError, lambda: psi.set_parameters(jnp.zeros(3)), "setting parameters before initialisation has to be refused")
            b = zoo.basis(shape, lDim)
            c = jnp.array(b[rng.integers(0, len(b), size=(D, 5))])
            v0 = np.asarray(psi(c))
            x = np.asarray(psi.get_parameters()).copy()
            # seeds
            twin = jVMC.vqs.NQS(mk(), seed=seed)
            ctx.eq(np.asarray(twin(c)), v0, "the same seed does not reproduce the initial state", rtol=1e-12, atol=1e-12)
            ctx.eq(np.asarray(twin.get_parameters()), x, "the same seed does not reproduce the initial parameters", rtol=0, atol=0)
            o = jVMC.vqs.NQS(mk(), seed=seed + 1)
            o(c)
            ctx.ok(np.any(np.asarray(o.get_parameters()) != x), "different seeds give identical parameters")
            ctx.count("instances_compared")
            ctx.need(x.ndim == 1 and np.isrealobj(x) and np.all(np.isfinite(x)), "the parameter vector is not a finite real vector", got=x)
            leaves = jax.tree_util.tree_leaves(psi.params)
            cpx = np.iscomplexobj(np.asarray(leaves[0]))
            nreal = sum(np.asarray(l).size for l in leaves) * (2 if cpx else 1)
            ctx.same(len(x), nreal, "the parameter vector does not have one entry per real degree of freedom")
            ctx.same(int(psi.numParameters) * (2 if cpx else 1), nreal, "reported number of parameters")
            other_vars = {k: np.asarray(jax.tree_util.tree_leaves(v)[0]).copy() for k, v in psi.parameters.items() if k != "params"}
            cur = x.copy()
            order = rng.permutation(8)
            for step in range(ctx.n(12, 25)):
                op = int(rng.integers(8)) if step >= 8 else int(order[step])
                if op == 0:
                    cur = rng.normal(size=x.shape) * 0.5
                    psi.set_parameters(jnp.array(cur))
                elif op == 1:
                    d = rng.normal(size=x.shape) * 0.1
                    psi.update_parameters(jnp.array(d))
                    cur = cur + d
                elif op == 7:
                    # increments far below (or above) the usual scale
                    sc = [1e-13, 1e-9, 1e-18][int(rng.integers(3))]
                    cur = rng.normal(size=x.shape) * sc
                    psi.set_parameters(jnp.array(cur))
                    d = rng.normal(size=x.shape) * sc
                    psi.update_parameters(jnp.array(d))
                    ctx.eq(np.asarray(psi.get_parameters()) / sc, (cur + d) / sc, "a small update was not added", rtol=0, atol=1e-9, scale=sc)
                    cur = cur + d
                elif op == 2:
                    psi(c)
                elif op == 3:
                    psi.gradients(c)
                elif op == 4:
                    psi.params = psi.params          # tree round trip
                else:
                    # other values as a tree, through either of the two ways that take one
                    v = rng.normal(size=x.shape) * 0.5
                    o.set_parameters(jnp.array(v))
                    if op == 5:
                        psi.set_parameters(flax.core.frozen_dict.freeze(o.params))
                    else:
                        psi.params = jax.tree_util.tree_map(lambda z: z, o.params)
                    cur = v
                got = np.asarray(psi.get_parameters())
                ctx.eq(got, cur, "the parameter vector read back differs from the one written", rtol=0, atol=1e-14 if op in (1, 7) else 0, op=op, step=step)
                cur = got.copy()
                ctx.count("operations")
                twin.set_parameters(psi.get_parameters())
                ctx.eq(np.asarray(twin(c)), np.asarray(psi(c)), "two states with equal parameter vectors differ", rtol=1e-12, atol=1e-12, step=step)
                for k, v in other_vars.items():
                    ctx.eq(np.asarray(jax.tree_util.tree_leaves(psi.parameters[k])[0]), v, "non-variational data of the network changed with the parameters", rtol=0, atol=0)
            # evaluation uses the parameters now set
            if name != "const":
                ctx.eq(np.asarray(psi(c)), zoo.psi_raw(psi, np.asarray(c).reshape((-1,) + tuple(shape))).reshape(c.shape[:2]), "evaluation does not use the current parameters", rtol=1e-11, atol=1e-11)
            # every coordinate moves exactly one real number of the parameter tree, by exactly that much
            base = [np.asarray(l).copy() for l in jax.tree_util.tree_leaves(psi.params)]
            seen = set()
            for k in rng.permutation(len(cur))[:ctx.n(12, 60)]:
                e = np.zeros_like(cur)
                e[k] = 0.125
                psi.set_parameters(jnp.array(cur + e))
                moved = []
                for j, (l, l0) in enumerate(zip(jax.tree_util.tree_leaves(psi.params), base)):
                    dl = np.asarray(l) - l0
                    for part, z in (("re", np.real(dl)), ("im", np.imag(dl))):
                        for q in np.argwhere(np.abs(z) > 1e-12):
                            moved.append((j, part, tuple(int(t) for t in q), round(float(z[tuple(q)]), 10)))
                ctx.ok(len(moved) == 1 and abs(moved[0][3] - 0.125) < 1e-9, "one entry of the parameter vector moves more or less than one parameter", moved=moved, entry=int(k))
                if moved:
                    ctx.ok(moved[0][:3] not in seen, "two entries of the parameter vector move the same parameter", moved=moved, entry=int(k))
                    seen.add(moved[0][:3])
                ctx.count("coordinates_probed")
            psi.set_parameters(jnp.array(cur))
            # the other instance never moved by itself
            before = np.asarray(twin.get_parameters()).copy()
            psi.update_parameters(jnp.array(rng.normal(size=cur.shape)))
            ctx.eq(np.asarray(twin.get_parameters()), before, "updating one state changed another one", rtol=0, atol=0)
            # a parameter tree is accepted as well
            tree = flax.core.frozen_dict.freeze(twin.params)
            psi.set_parameters(tree)
            ctx.eq(np.asarray(psi.get_parameters()), before, "parameters given as a tree differ from the vector", rtol=0, atol=0)
