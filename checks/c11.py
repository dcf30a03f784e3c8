"""C11: the local estimator of every operator equals sum_s' O_ss' psi(s')/psi(s), however it is batched and distributed."""
RULE = ("a case = one operator x ansatz x sample set evaluated with several batch sizes of the estimator and of the network, with and "
        "without given log-amplitudes, and through the estimator function; non-trivial when the operator has off-diagonal elements")
REQUIRED = {"large": 8, "estimates": 1500, "batched": 60, "remainder": 10, "no_logpsi": 20, "estimator_function": 10, "custom_operator": 4, "povm": 3,
            "plain_amplitudes": 3, "with_arguments": 10, "interleaved": 10, "offset_amplitudes": 1, "batch_sizes": 100}


def SHARDS(tier):
    out = [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in enumerate([1, 2, 3, 1])]
    out += [{"fn": "other", "dev": d, "key": "o%d" % d} for d in (1, 2)]
    out += [{"fn": "run", "part": 9, "dev": 1, "ranks": 2, "mpi": True, "key": "p9"}]
    if tier == "thorough":
        out += [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in zip(range(4, 8), [1, 2, 4, 5])]
        out += [{"fn": "other", "dev": d, "key": "o%d" % d} for d in (3, 4)]
    return out


def dense_rows(strings, prefs, S):
    from checks.c10 import reference
    return [reference(strings, prefs, tuple(int(x) for x in s.ravel())) for s in S]


def oloc_ref(rows, S, logpsi):
    """logpsi: function of a list of flat configurations"""
    import numpy as np
    allc = sorted({c for r in rows for c in r} | {tuple(int(x) for x in s.ravel()) for s in S})
    lp = dict(zip(allc, logpsi(np.array(allc, dtype=np.int32))))
    return np.array([sum(m * np.exp(lp[c] - lp[tuple(int(x) for x in s.ravel())]) for c, m in r.items()) for r, s in zip(rows, S)])


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    from lib import zoo
    from checks.c10 import plain
    D = ctx.dev
    nets = ["table_cpx", "CpxRBM", "table_re", "CpxRBM2d", "RNN", "TwoNets", "Sym", "CNN2d", "table_real", "CpxCNN", "LSTM", "RNN2d"]

    def make(name, rng, bs):
        if name.startswith("table"):
            kind = name.split("_")[1]
            shape = [(3,), (2, 2), (4,)][int(rng.integers(3))]
            sc = float(rng.choice([1., 3., 20.]))
            psi, v = zoo.table(jVMC, shape, 2, kind, rng, scale=sc, batchSize=bs)
            off = [0., 1000., -1000.][int(rng.integers(3))]        # ratios stay moderate while the amplitudes leave the floating-point range
            if off:
                psi.set_parameters(jnp.array(zoo.table_vec(v + off, kind)))
                ctx.count("offset_amplitudes")
            return psi, shape
        psi, shape, _ = zoo.make_psi(jVMC, name, rng, batchSize=bs)
        # polynomial activation functions can blow up: keep the ratios of amplitudes within the floating-point range
        full = zoo.basis(shape)
        for _ in range(40):
            lp = np.real(zoo.psi_raw(psi, full))
            if np.all(np.isfinite(lp)) and np.ptp(lp) < 100.:
                break
            psi.set_parameters(0.7 * psi.get_parameters())
        return psi, shape

    def rand_op(rng, N, nargs):
        strings, prefs, build = [], [], []
        for _ in range(int(rng.integers(1, 6))):
            fermi = rng.integers(4) == 0
            fam = [op.creation, op.annihilation, op.number] if fermi else [op.Sx, op.Sy, op.Sz, op.Sp, op.Sm]
            locs = [fam[int(rng.integers(len(fam)))](int(rng.integers(N))) for _ in range(int(rng.integers(1, 4)))]
            v = round(float(rng.uniform(0.4, 1.6)), 3)
            if nargs == 1:
                build.append(op.scal_opstr(lambda t, v=v: v + t, tuple(locs)))
                prefs.append(lambda t, v=v: v + t)
            elif nargs == 2:
                f = lambda t, h, v=v: v + t - 0.7 * h * v
                build.append(op.scal_opstr(f, tuple(locs)))
                prefs.append(f)
            else:
                build.append(op.scal_opstr(v, tuple(locs)))
                prefs.append(lambda v=v: v)
            strings.append([plain(o) for o in locs])
        return build, strings, prefs

    for i, rng in ctx.cases("oloc", ctx.n(9, 40), cap=ctx.n(130, 500)):
        name = nets[(i + 3 * ctx.spec["part"]) % len(nets)]
        bs = int(rng.choice([1, 2, 5, 1000]))
        psi, shape = make(name, rng, bs)
        N = int(np.prod(shape))
        nargs = (i + ctx.spec["part"]) % 3
        build, strings, prefs = rand_op(rng, N, nargs)
        build2, strings2, prefs2 = rand_op(rng, N, 0)
        n = int(rng.integers(1, 12))
        full = zoo.basis(shape)
        sel = rng.integers(0, len(full), size=D * n)
        if ctx.size > 1:
            sel = np.roll(sel, ctx.rank)
        S = full[sel]
        Sd = zoo.spread_over(S, D)
        desc = {"net": name, "net_batch": bs, "n": n, "shape": shape, "nargs": nargs, "strings": strings}
        with ctx.case("oloc", i, (name, bs, n, nargs, str(strings)[:80]), desc=desc):
            raw = lambda c: zoo.psi_raw(psi, c.reshape((-1,) + tuple(shape)))
            args = [float(rng.uniform(-0.3, 0.5)) for _ in range(nargs)]
            pv = [f(*args) for f in prefs]
            want = oloc_ref(dense_rows(strings, pv, S), S, raw)
            want2 = oloc_ref(dense_rows(strings2, [f() for f in prefs2], S), S, raw)
            lp = psi(Sd)
            O2 = op.BranchFreeOperator()
            for b in build2:
                O2.add(b)
            for B in [-1, 1, 2, 3, n, n + 5][:: 1 if ctx.thorough else 2] + [int(rng.integers(1, n + 1))]:
                O = op.BranchFreeOperator(ElocBatchSize=B)
                for b in build:
                    O.add(b)
                w = " (batched)" if B > 0 else ""
                kw = dict(rtol=1e-8, atol=1e-9, batch=B, args=args)
                got = O.get_O_loc(Sd, psi, lp, *args)
                ctx.eq(np.asarray(got).reshape(-1), want, "local estimator differs from sum O_ss' psi(s')/psi(s)" + w, **kw)
                ctx.need(np.asarray(got).shape == (D, n), "local estimator has a wrong shape" + w, shape=np.asarray(got).shape)
                ctx.count("estimates", D * n)
                if B > 0:
                    ctx.count("batched")
                    if n % B:
                        ctx.count("remainder")
                # interleaved with another operator, which must not disturb it
                got2 = O2.get_O_loc(Sd, psi)
                ctx.eq(np.asarray(got2).reshape(-1), want2, "local estimator without given log-amplitudes differs" , **kw)
                ctx.count("no_logpsi")
                ctx.count("interleaved")
                if nargs:
                    for j in range(nargs):       # one argument at a time
                        a2 = [x + (0.3 if k == j else 0.) for k, x in enumerate(args)]
                        got = O.get_O_loc(Sd, psi, None, *a2)
                        ctx.eq(np.asarray(got).reshape(-1), oloc_ref(dense_rows(strings, [f(*a2) for f in prefs], S), S, raw),
                               "local estimator after a change of the arguments differs" + w, changed=j, **kw)
                        ctx.count("with_arguments")
                        ctx.count("no_logpsi")
                # another number of samples with the same operator
                m = int(rng.integers(1, n + 3))
                S3 = full[rng.integers(0, len(full), size=D * m)]
                got = O.get_O_loc(zoo.spread_over(S3, D), psi, None, *args)
                ctx.eq(np.asarray(got).reshape(-1), oloc_ref(dense_rows(strings, pv, S3), S3, raw),
                       "local estimator on a second sample set differs" + w, **kw)
                ctx.count("estimates", D * m)
                if B > 0 and m % B:
                    ctx.count("remainder")
            # the documented two-step interface
            O = op.BranchFreeOperator()
            for b in build:
                O.add(b)
            sp, _ = O.get_s_primes(Sd, *args)
            got = O.get_O_loc_unbatched(lp, psi(sp))
            ctx.eq(np.asarray(got).reshape(-1), want, "two-step local estimator differs", rtol=1e-8, atol=1e-9)
            # estimator as a function of parameters
            est = jax.jit(O.get_estimator_function(psi, *args))
            for k in range(min(3, len(S))):
                ctx.eq(est(psi.parameters, jnp.asarray(S[k])), want[k], "estimator function differs from the local estimator", rtol=1e-8, atol=1e-9)
                ctx.count("estimator_function")
            # ... it follows the parameters it is given
            p0 = psi.parameters
            p1 = jax.tree_util.tree_map(lambda x: x * 0.9 + 0.05, p0)
            psi.parameters = p1
            want1 = oloc_ref(dense_rows(strings, pv, S[:1]), S[:1], raw)
            psi.parameters = p0
            ctx.eq(est(p1, jnp.asarray(S[0])), want1[0], "estimator function does not follow the parameters", rtol=1e-8, atol=1e-9)

    # ---- systems and samples of the size that is used in practice
    for i, rng in ctx.cases("large", ctx.n(2, 8), cap=ctx.n(60, 300)):
        shape = [(40,), (5, 7)][(i + ctx.spec["part"]) % 2]
        N = int(np.prod(shape))
        net = jVMC.nets.CpxRBM(numHidden=3, bias=True)
        psi = jVMC.vqs.NQS(net, batchSize=int(rng.choice([7, 64, 5000])), seed=int(rng.integers(1 << 30)))
        n = int(rng.integers(60, 90))
        S = rng.integers(0, 2, size=(D * n,) + shape).astype(np.int32)
        Sd = zoo.spread_over(S, D)
        with ctx.case("large", i, (shape, n, D)):
            psi(Sd)
            par = np.asarray(psi.get_parameters())
            psi.set_parameters(jnp.array(0.25 * rng.normal(size=par.shape)))
            strings, prefs, build = [], [], []
            for l in range(N):
                for locs in ([op.Sx(l)], [op.Sz(l), op.Sz((l + 1) % N)], [op.Sp(l), op.Sm((l + 3) % N)]):
                    v = round(float(rng.uniform(0.4, 1.6)), 3)
                    build.append(op.scal_opstr(v, tuple(locs)))
                    prefs.append(v)
                    strings.append([plain(o) for o in locs])
            raw = lambda c: zoo.psi_raw(psi, c.reshape((-1,) + tuple(shape)))
            pick = np.sort(rng.choice(D * n, size=12, replace=False))
            pick[0], pick[-1] = 0, D * n - 1
            want = oloc_ref(dense_rows(strings, prefs, S[pick]), S[pick], raw)
            for B in (-1, 13, 64):
                O = op.BranchFreeOperator(ElocBatchSize=B)
                for b in build:
                    O.add(b)
                got = O.get_O_loc(Sd, psi)
                ctx.need(np.asarray(got).shape == (D, n), "local estimator has a wrong shape (large system)", shape=np.asarray(got).shape)
                ctx.eq(np.asarray(got).reshape(-1)[pick], want, "local estimator differs from sum O_ss' psi(s')/psi(s) (large system)", batch=B)
                ctx.count("estimates", D * n)
                ctx.count("large")

    # ---- every batch size
    for i, rng in ctx.cases("sizes", ctx.n(1, 3), cap=ctx.n(60, 300)):
        n = int(rng.integers(48, 66))
        psi, _ = zoo.table(jVMC, (3,), 2, "cpx", rng, scale=1., batchSize=1000)
        full = zoo.basis((3,))
        S = full[rng.integers(0, len(full), size=D * n)]
        Sd = zoo.spread_over(S, D)
        with ctx.case("sizes", i, (n, D)):
            locs = [(op.Sx(0),), (op.Sp(1), op.Sm(2)), (op.Sz(0), op.Sz(1))]
            want = oloc_ref(dense_rows([[plain(o) for o in l] for l in locs], [1.] * 3, S), S, lambda c: zoo.psi_raw(psi, c.reshape((-1, 3))))
            lp = psi(Sd)
            for B in list(range(1, n + 2, 1 if ctx.thorough or D == 1 and ctx.size == 1 else 5)):
                O = op.BranchFreeOperator(ElocBatchSize=B)
                for l in locs:
                    O.add(op.OpStr(*l))
                got = O.get_O_loc(Sd, psi, lp)
                ctx.need(np.asarray(got).shape == (D, n), "local estimator has a wrong shape (sweep over batch sizes)", shape=np.asarray(got).shape)
                ctx.eq(np.asarray(got).reshape(-1), want, "local estimator differs from sum O_ss' psi(s')/psi(s) (sweep over batch sizes)", rtol=1e-8, atol=1e-9, batch=B, n=n)
                ctx.count("batch_sizes")


def other(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import flax.linen as nn
    import jVMC
    import jVMC.operator as op
    from lib import zoo
    D = ctx.dev

    class Shift(op.Operator):
        """user-defined: cyclic shift of the configuration plus a diagonal term; compile() returns one function"""
        def __init__(self, **kw):
            super().__init__(**kw)

        def compile(self):
            def f(s, *args):
                sp = jnp.stack([jnp.roll(s.ravel(), 1).reshape(s.shape), s])
                w = args[0] if args else 1.
                return sp, jnp.array([0.7 + 0.2j * w, jnp.sum(s) * 0.5 * w], dtype=jnp.complex128)
            return f

    class Pre(op.Operator):
        """user-defined, with a preprocessor for the arguments"""
        def __init__(self, **kw):
            super().__init__(**kw)

        def compile(self):
            def f(s, a):
                sp = s.ravel().at[0].set(1 - s.ravel()[0]).reshape(s.shape)
                return sp[None], jnp.array([a], dtype=jnp.complex128)
            return f, (lambda x, y: (jnp.asarray(x * 10 + y),))

    class Opt(op.Operator):
        """user-defined, with optional arguments"""
        def __init__(self, **kw):
            super().__init__(**kw)

        def compile(self):
            def f(s, a=0.5, b=2., c=-1.):
                sp = s.ravel().at[0].set(1 - s.ravel()[0]).reshape(s.shape)
                return jnp.stack([sp, s]), jnp.array([a + 1j * b, c * b], dtype=jnp.complex128)
            return f

    class Plain(nn.Module):
        """returns amplitudes instead of their logarithm"""
        n: int

        @nn.compact
        def __call__(self, s):
            t = self.param("t", lambda k, sh: jax.random.normal(k, sh) + 1.5j * jax.random.normal(jax.random.split(k)[0], sh), (self.n,))
            return t[zoo.index_of(s, 2)]

    for i, rng in ctx.cases("custom", ctx.n(3, 20)):
        shape = [(3,), (2, 2)][i % 2]
        psi, vals = zoo.table(jVMC, shape, 2, "cpx", rng)
        n = int(rng.integers(1, 9))
        full = zoo.basis(shape)
        S = full[rng.integers(0, len(full), size=D * n)]
        Sd = zoo.spread_over(S, D)
        ix = zoo.flat_ids(S, shape)
        with ctx.case("custom", i, (shape, n, D)):
            for B in (-1, 2, n):
                A, P = Shift(ElocBatchSize=B), Pre(ElocBatchSize=B)
                for w in (None, 0.5, -1.25):
                    args = () if w is None else (w,)
                    ww = 1. if w is None else w
                    sh = np.roll(S.reshape(len(S), -1), 1, axis=1)
                    want = (0.7 + 0.2j * ww) * np.exp(vals[zoo.ids(sh)] - vals[ix]) + 0.5 * ww * S.reshape(len(S), -1).sum(axis=1)
                    got = A.get_O_loc(Sd, psi, None, *args)
                    ctx.eq(np.asarray(got).reshape(-1), want, "local estimator of a user-defined operator differs", batch=B, arg=w)
                    ctx.count("estimates", D * n)
                    ctx.count("custom_operator")
                    est = A.get_estimator_function(psi, *args)
                    ctx.eq(est(psi.parameters, jnp.asarray(S[0])), want[0], "estimator function of a user-defined operator differs", arg=w)
                    ctx.count("estimator_function")
                fl = S.reshape(len(S), -1).copy()
                fl[:, 0] = 1 - fl[:, 0]
                Q = Opt(ElocBatchSize=B)
                for na in (1, 3, 2, 0, 3, 1, 2):
                    al = [float(z) for z in rng.uniform(.5, 2, size=na)]
                    a_, b_, c_ = al + [.5, 2., -1.][na:]
                    want = (a_ + 1j * b_) * np.exp(vals[zoo.ids(fl)] - vals[ix]) + c_ * b_
                    ctx.eq(np.asarray(Q.get_O_loc(Sd, psi, None, *al)).reshape(-1), want, "local estimator of a user-defined operator with optional arguments differs", batch=B, args=al)
                    ctx.eq(Q.get_estimator_function(psi, *al)(psi.parameters, jnp.asarray(S[0])), want[0], "estimator function of a user-defined operator with optional arguments differs", args=al)
                    ctx.count("custom_operator")
                for x, y in ((0.1, 0.2), (0.3, -1.)):
                    want = (x * 10 + y) * np.exp(vals[zoo.ids(fl)] - vals[ix])
                    ctx.eq(np.asarray(P.get_O_loc(Sd, psi, None, x, y)).reshape(-1), want,
                           "local estimator of a user-defined operator with argument preprocessing differs", batch=B)
                    ctx.count("custom_operator")

    for i, rng in ctx.cases("plain", ctx.n(2, 10)):
        shape = (3,)
        psi = jVMC.vqs.NQS(Plain(n=8), logarithmic=False, seed=int(rng.integers(1 << 30)))
        n = int(rng.integers(2, 9))
        full = zoo.basis(shape)
        S = full[rng.integers(0, 8, size=D * n)]
        Sd = zoo.spread_over(S, D)
        with ctx.case("plain", i, (n, D)):
            psi(Sd)
            amp = np.asarray(psi.parameters["params"]["t"])
            from checks.c10 import plain as pl
            locs = [[op.Sx(0)], [op.Sz(1), op.Sy(2)], [op.Sz(0)]]
            want = []
            for s in S:
                from checks.c10 import reference
                r = reference([[pl(o) for o in l] for l in locs], [1., 0.3, -0.7], tuple(int(x) for x in s))
                want.append(sum(m * amp[zoo.ids(np.array(c))] for c, m in r.items()) / amp[zoo.ids(s)])
            for B in (-1, 2, 3):
                O = op.BranchFreeOperator(ElocBatchSize=B)
                for l, p in zip(locs, [1., 0.3, -0.7]):
                    O.add(op.scal_opstr(p, tuple(l)))
                ctx.eq(np.asarray(O.get_O_loc(Sd, psi)).reshape(-1), want, "local estimator of an ansatz returning plain amplitudes differs", batch=B)
                ctx.eq(np.asarray(O.get_O_loc(Sd, psi, jnp.log(psi(Sd)))).reshape(-1), want,
                       "local estimator of an ansatz returning plain amplitudes differs (given log-amplitudes)", batch=B)
                ctx.count("estimates", D * n)
                ctx.count("plain_amplitudes")

    for i, rng in ctx.cases("povm", ctx.n(2, 10)):
        shape = (2,)
        psi, vals = zoo.table(jVMC, shape, 4, "real", rng)
        povm = op.POVM({"dim": "1D", "L": 2}, theta=float(rng.uniform(0, 3)), phi=float(rng.uniform(0, 3)))
        terms = [("X", (0,)), ("ZZ", (0, 1)), ("dephasing", (1,)), ("XX", (1, 0)), ("decayup", (0,))]
        terms = [terms[k] + (float(rng.uniform(0.2, 2)),) for k in rng.permutation(5)[:3]]
        n = int(rng.integers(2, 9))
        full = zoo.basis(shape, 4)
        S = full[rng.integers(0, len(full), size=D * n)]
        Sd = zoo.spread_over(S, D)
        with ctx.case("povm", i, (str(terms), n, D), desc={"terms": terms}):
            W = np.zeros((16, 16))
            for nm, sites, st in terms:
                m = np.asarray(povm.operators[nm])
                for a in full:
                    for b in full:
                        others = [k for k in range(2) if k not in sites]
                        if any(a[k] != b[k] for k in others):
                            continue
                        ra = int("".join(str(a[k]) for k in sites), 4)
                        rb = int("".join(str(b[k]) for k in sites), 4)
                        W[zoo.ids(a, 4), zoo.ids(b, 4)] += st * m[ra, rb]
            P = np.exp(vals)
            want = ((W @ P) / P)[zoo.ids(S, 4)]
            for B in (-1, 3):
                O = op.POVMOperator(povm, ElocBatchSize=B)
                for nm, sites, st in terms:
                    O.add({"name": nm, "sites": sites, "strength": st})
                ctx.eq(np.asarray(O.get_O_loc(Sd, psi)).reshape(-1), want, "local estimator of a POVM operator differs", atol=1e-7, batch=B)
                ctx.eq(O.get_estimator_function(psi)(psi.parameters, jnp.asarray(S[0])), want[0], "estimator function of a POVM operator differs", atol=1e-7)
                ctx.count("estimates", D * n)
                ctx.count("povm")
                ctx.count("estimator_function")
