"""C10: matrix elements of operator strings equal the dense composition of the declared local maps."""
RULE = ("a case = one random operator (strings of local operators with scalar/callable prefactors, local dimension 2-4, 1D/2D "
        "lattice, bosonic/fermionic) built through the public algebra and asked for the elements of all or random basis states; "
        "non-trivial when at least one nonzero element was compared")
REQUIRED = {"large": 8, "single_operator_prefactor": 20, "several_prefactors": 20, "operators": 60, "elements": 2000, "with_arguments": 10, "fermionic": 8, "recompiled": 10, "many_prefactors": 2,
            "algebra": 20, "dim2": 5, "lDim_gt2": 5}


def SHARDS(tier):
    out = [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in enumerate([1, 1, 2, 3])]
    out += [{"fn": "many", "dev": 1, "ranks": r, "mpi": True, "key": "m%d" % r} for r in (1, 2, 3)]
    if tier == "thorough":
        out += [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in zip(range(4, 8), [1, 2, 4, 5])]
        out += [{"fn": "many", "dev": 2, "ranks": r, "mpi": True, "key": "m%d" % r} for r in (4, 7)]
    return out


# ---------------------------------------------------------------- oracle: plain python on configurations
def act(string, pref, s):
    """string: list of (idx, map, matEls, fermionic), leftmost first. -> (config, element)"""
    c = list(s)
    m = complex(pref)
    for idx, mp, el, ferm in reversed(string):
        m *= el[c[idx]]
        if ferm:
            m *= (-1) ** sum(c[idx + 1:])
        c[idx] = int(mp[c[idx]])
    return tuple(c), m


def reference(strings, prefs, s):
    out = {}
    for st, p in zip(strings, prefs):
        c, m = act(st, p, s)
        out[c] = out.get(c, 0) + m
    return out


def plain(op):
    import numpy as np
    return (int(op["idx"]), [int(x) for x in np.asarray(op["map"])], [complex(x) for x in np.asarray(op["matEls"])], bool(op.get("fermionic", False)))


def run(ctx):
    import numpy as np
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    from lib import zoo

    D = ctx.dev

    def rand_local(rng, N, lDim, fam):
        i = int(rng.integers(N))
        if fam == "spin":
            return [op.Sx, op.Sy, op.Sz, op.Sp, op.Sm, op.Id][int(rng.integers(6))](i)
        if fam == "fermi":
            return [op.creation, op.annihilation, op.number][int(rng.integers(3))](i)
        diag = bool(rng.integers(2))
        mp = np.arange(lDim) if diag else rng.integers(0, lDim, size=lDim)
        if not diag and np.all(mp == np.arange(lDim)):
            mp = np.roll(mp, 1)
        el = rng.normal(size=lDim) + 1j * rng.normal(size=lDim)
        el = np.where(np.abs(el) < 0.05, 0.5, el)
        el[rng.uniform(size=lDim) < 0.2] = 0.
        return op.LocalOp(idx=i, map=jnp.array(mp, dtype=np.int32), matEls=jnp.array(el), diag=diag)

    def rand_pref(rng, nargs):
        """-> (object handed to the library or None, python function of args)"""
        k = int(rng.integers(6))
        v = round(float(rng.uniform(0.5, 2) * rng.choice([-1, 1])), 3) * float(rng.choice([1., 1., 1., 1e-2, 1e-4, 1e3]))
        if k == 0:
            return None, (lambda *a: 1.)
        if k == 1:
            return v, (lambda *a: v)
        if k == 2:
            return np.float64(v), (lambda *a: v)
        if k == 3:
            return complex(v, 0.4), (lambda *a: complex(v, 0.4))
        if nargs == 0:
            return (lambda *a: v * 2), (lambda *a: v * 2)
        if nargs == 1:
            return (lambda t: v * jnp.cos(t) + 2.), (lambda t: v * np.cos(t) + 2.)
        return (lambda t, u: v * t + 1j * u), (lambda t, u: v * t + 1j * u)

    def rand_string(rng, N, lDim, fam, nargs):
        n = int(rng.integers(1, 5))
        if fam == "fermi" and rng.integers(2):
            n = 2 * int(rng.integers(1, 3))
        return [rand_local(rng, N, lDim, fam) for _ in range(n)], [rand_pref(rng, nargs)]

    def build(rng, locs, prefs):
        """One of several equivalent ways to write the same string. -> (library string, prefactor functions)"""
        p, f = prefs[0]
        style = int(rng.integers(11))
        fs = [f]
        if len(locs) == 1 and style >= 4:               # a single local operator
            l = locs[0]
            if p is None:
                return (l,) if style % 2 else op.OpStr(l), fs
            ctx.count("single_operator_prefactor")
            if style < 6:
                return p * l, fs
            if style < 8:
                return l * p, fs
            w = float(rng.uniform(0.5, 1.5))
            if style == 8:
                return op.OpStr(w, l, p), fs + [lambda *x: w]
            if style == 9:
                return w * (p * l), fs + [lambda *x: w]
            return op.OpStr(p, l), fs
        if style == 0 or len(locs) < 2:
            s = tuple(locs) if p is None else op.scal_opstr(p, tuple(locs))
        elif style == 1:
            s = op.OpStr(*locs) if p is None else p * op.OpStr(*locs)
        elif style == 2:
            s = locs[0] * locs[1]
            for l in locs[2:]:
                s = s * l
            if p is not None:
                s = p * s
        elif style == 3:            # prefactors on both factors of a product
            k = int(rng.integers(1, len(locs)))
            a, b = op.OpStr(*locs[:k]), op.OpStr(*locs[k:])
            if p is not None:
                a = p * a
            w = float(rng.uniform(0.5, 1.5))
            b = w * b
            fs = fs + [lambda *x: w]
            s = a * b
        elif style == 4:            # repeated rescaling
            w = float(rng.uniform(0.5, 1.5))
            s = op.scal_opstr(w, tuple(locs))
            fs = [lambda *x: w]
            if p is not None:
                s = op.scal_opstr(p, s)
                fs = [f] + fs
        elif style == 6:            # plain dictionaries
            if rng.integers(2):
                s = dict(locs[0]) * (op.OpStr(*locs[1:]) if p is None else p * op.OpStr(*locs[1:]))
            else:
                s = op.OpStr(*[dict(l) for l in locs])
                s = s if p is None else op.scal_opstr(p, s)
        elif style == 7 and not callable(p):            # prefactor on the right
            s = locs[0] if rng.integers(2) else op.OpStr(locs[0])
            for l in locs[1:]:
                s = s * l
            s = s if p is None else s * p
        elif style == 8:            # several prefactors among the operators
            w = complex(rng.uniform(0.5, 1.5), rng.uniform(-1, 1))
            k = int(rng.integers(0, len(locs) + 1))
            s = op.OpStr(*(locs[:k] + [w] + locs[k:] + ([] if p is None else [p])))
            fs = fs + [lambda *x: w]
            ctx.count("several_prefactors")
        elif style == 9:            # a sum of products as it is written: a * A * B
            s = locs[0] if p is None else p * locs[0]
            for l in locs[1:]:
                s = s * l
        elif style == 10:           # every factor with its own prefactor
            ws = [float(rng.uniform(0.5, 1.5)) for _ in locs]
            s = ws[0] * locs[0]
            for w, l in zip(ws[1:], locs[1:]):
                s = s * (w * l)
            s = s if p is None else p * s
            tot = float(np.prod(ws))
            fs = fs + [lambda *x: tot]
        else:                       # local operator times string
            s = op.OpStr(*locs[1:])
            if p is not None:
                s = p * s
            s = locs[0] * s
        ctx.count("algebra")
        return s, fs

    def compare(O, strings, prefs, S, shape, lDim, args, what):
        n = S.shape[0]
        sp, m = O.get_s_primes(zoo.spread_over(S, D), *args)
        sp, m = np.asarray(sp), np.asarray(m)
        ctx.need(m.shape[:2] == (D, n // D), "matrix elements have a wrong leading shape", shape=m.shape)
        ctx.need(sp.shape == (D, m.shape[1] * m.shape[2]) + tuple(shape), "connected configurations have a wrong shape", shape=sp.shape, matEl=m.shape)
        m = m.reshape(n, -1)
        sp = sp.reshape((n, m.shape[1], int(np.prod(shape))))
        ctx.ok(np.all((sp >= 0) & (sp < lDim)), "connected configuration outside of the local Hilbert space")
        pv = [np.prod([f(*[float(x) for x in args]) for f in fs]) for fs in prefs]
        scale = max(1., max(abs(p) for p in pv))
        bad = 0
        for i in range(n):
            s = tuple(int(x) for x in S[i].ravel())
            want = reference(strings, pv, s)
            got = {}
            for j in range(m.shape[1]):
                if m[i, j] != 0:
                    c = tuple(int(x) for x in sp[i, j])
                    got[c] = got.get(c, 0) + m[i, j]
            for c in set(want) | set(got):
                ctx.count("elements")
                e = abs(got.get(c, 0) - want.get(c, 0))
                # elements below the documented cutoff 1e-6 may be dropped
                if not (e <= 1e-9 * scale or e <= 1.01e-6 * len(strings)):
                    bad += 1
                    if bad < 3:
                        ctx.violation("matrix element differs from the composition of the local maps" + what, s=s, sp=c,
                                      got=complex(got.get(c, 0)), want=complex(want.get(c, 0)), args=args)
        ctx.ok(bad == 0, "operator has wrong matrix elements" + what, wrong=bad)

    shapes = {"spin": [(4,), (2, 2), (3,), (2, 3), (1,), (6,)], "fermi": [(4,), (2, 2), (5,), (2, 3), (1, 2, 2)], "gen": [(3,), (2, 2), (2,), (4,)]}

    for i, rng in ctx.cases("op", ctx.n(36, 160), cap=ctx.n(45, 500)):
        fam = ["spin", "fermi", "gen"][i % 3]
        shape = shapes[fam][int(rng.integers(len(shapes[fam])))]
        lDim = int(rng.integers(2, 5)) if fam == "gen" else 2
        N = int(np.prod(shape))
        nargs = int(rng.integers(3))
        nstr = int(rng.integers(1, 7))
        raw = [rand_string(rng, N, lDim, fam, nargs) for _ in range(nstr)]
        desc = {"family": fam, "shape": shape, "lDim": lDim, "nargs": nargs, "strings": [[plain(o) for o in l] for l, _ in raw]}
        with ctx.case("op", i, (fam, shape, lDim, nargs, tuple(len(l) for l, _ in raw)), desc=desc):
            O = op.BranchFreeOperator(lDim=lDim)
            strings, prefs = [], []
            for k, (locs, pf) in enumerate(raw):
                s, fs = build(rng, locs, pf)
                if k % 2:
                    O += s
                else:
                    O.add(s)
                strings.append([plain(o) for o in locs])
                prefs.append(fs)
            S = zoo.basis(shape, lDim)
            if len(S) > 36:
                S = S[rng.choice(len(S), size=36, replace=False)]
            S = S[:len(S) - len(S) % D] if len(S) >= D else np.concatenate([S] * D)[:D]
            args = [float(rng.uniform(-1, 1)) for _ in range(nargs)]
            compare(O, strings, prefs, S, shape, lDim, args, "")
            # asked again with other arguments: the prefactors follow the arguments
            if nargs:
                ctx.count("with_arguments")
                for _ in range(2):
                    args = [float(rng.uniform(-1, 1)) for _ in range(nargs)]
                    compare(O, strings, prefs, S, shape, lDim, args, " after a change of the arguments")
            if nargs == 0 and i % 4 == 1:       # arguments nobody asks for
                for extra in ([0.3], [], [0.1, 0.2], [0.7]):
                    compare(O, strings, prefs, S, shape, lDim, extra, " with another number of arguments")
                    ctx.count("argument_counts")
            # extended after it had been used
            if i % 2 == 0:
                locs, pf = rand_string(rng, N, lDim, fam, nargs)
                s, fs = build(rng, locs, pf)
                O.add(s)
                strings.append([plain(o) for o in locs])
                prefs.append(fs)
                compare(O, strings, prefs, S, shape, lDim, args, " after adding a string")
                ctx.count("recompiled")
            ctx.count("operators")
            if fam == "fermi":
                ctx.count("fermionic")
            if len(shape) > 1:
                ctx.count("dim2")
            if lDim > 2:
                ctx.count("lDim_gt2")

    # ---- lattices and strings of the size that is used in practice
    for i, rng in ctx.cases("large", ctx.n(3, 12), cap=ctx.n(40, 300)):
        fam = ["spin", "fermi", "gen"][(i + ctx.spec["part"]) % 3]
        shape = [(150,), (12, 13), (270,), (40,), (5, 6, 7)][int(rng.integers(5))]
        lDim = int(rng.integers(2, 5)) if fam == "gen" else 2
        N = int(np.prod(shape))
        strings, prefs = [], []
        with ctx.case("large", i, (fam, shape, lDim)):
            O = op.BranchFreeOperator(lDim=lDim)
            nargs = int(rng.integers(2))
            for k in range(24):
                n = [1, 2, 4, 9, 12, 3][k % 6]
                locs = [rand_local(rng, N, lDim, fam) for _ in range(n)]
                if k % 4 == 0:      # first and last site
                    for l in locs[:2]:
                        l["idx"] = int(rng.choice([0, 1, N - 2, N - 1]))
                if k % 6 == 4:      # many factors on one site and its neighbours
                    c = int(rng.integers(N - 2))
                    for l in locs:
                        l["idx"] = c + int(rng.integers(3))
                s, fs = build(rng, locs, [rand_pref(rng, nargs)])
                O.add(s)
                strings.append([plain(o) for o in locs])
                prefs.append(fs)
            # mostly filled, mostly empty and mixed configurations
            fill = np.linspace(0.02, 0.98, 2 * D)
            S = np.stack([np.where(rng.uniform(size=shape) < f, rng.integers(1, lDim, size=shape), 0) for f in fill]).astype(np.int32)
            for _ in range(1 + nargs):
                compare(O, strings, prefs, S, shape, lDim, [float(rng.uniform(-1, 1)) for _ in range(nargs)], " (large lattice)")
            ctx.count("large")

    # ---- an operator that grows while it is in use
    for i, rng in ctx.cases("grow", ctx.n(2, 8)):
        shape, N = (4,), 4
        nargs = i % 2
        with ctx.case("grow", i, ("grow", i, nargs)):
            O = op.BranchFreeOperator()
            strings, prefs = [], []
            S = zoo.basis(shape)
            S = S[:len(S) - len(S) % D]
            for step in range(18):
                for _ in range(40 if step == 12 else 1 + (step % 3 == 0)):
                    locs, pf = rand_string(rng, N, 2, "spin", nargs)
                    s, fs = build(rng, locs, pf)
                    O.add(s)
                    strings.append([plain(o) for o in locs])
                    prefs.append(fs)
                args = [float(rng.uniform(-1, 1)) for _ in range(nargs)]
                compare(O, strings, prefs, S, shape, 2, args, " while the operator grows")
                ctx.count("recompiled")

    # ---- two operators that share strings do not influence each other
    for i, rng in ctx.cases("share", ctx.n(3, 20)):
        shape, N = (3,), 3
        with ctx.case("share", i, ("share", i)):
            locs = [rand_local(rng, N, 2, "spin") for _ in range(3)]
            st = op.OpStr(*locs)
            v = float(rng.uniform(0.5, 2))
            scaled = v * st
            A, B = op.BranchFreeOperator(), op.BranchFreeOperator()
            A.add(st)
            B.add(scaled)
            B.add(st)
            S = zoo.basis(shape)
            S = S[:len(S) - len(S) % D]
            pl = [plain(o) for o in locs]
            one, vv = [lambda: 1.], [lambda: v]
            compare(A, [pl], [one], S, shape, 2, [], " (shared string)")
            compare(B, [pl, pl], [vv, one], S, shape, 2, [], " (shared string)")
            compare(A, [pl], [one], S, shape, 2, [], " (shared string)")


def many(ctx):
    """operators with very many prefactors, whose evaluation is distributed over the MPI processes"""
    import numpy as np
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    from lib import zoo
    D = ctx.dev
    for i, rng in ctx.cases("many", ctx.n(2, 6), cap=ctx.n(60, 400)):
        N = 4
        n = int(rng.integers(50, 70)) if i % 2 == 0 else 50 + i
        bare = rng.uniform(size=3 * n) < (0.4 if i % 2 == 0 else 0.)
        O = op.BranchFreeOperator()
        strings, prefs, k = [], [], 0
        for j in range(3 * n):
            if k == n:
                break
            l = [op.Sx, op.Sp, op.Sz, op.Sm][int(rng.integers(4))](int(rng.integers(N)))
            l2 = [op.Sx, op.Sp, op.Sz, op.Sm][int(rng.integers(4))](int(rng.integers(N)))
            if bare[j]:
                O.add(op.OpStr(l, l2))
                prefs.append(lambda t: 1.)
            else:
                v = float(rng.uniform(0.5, 1.5))
                O.add(op.scal_opstr(lambda t, v=v: v + t, (l, l2)))
                prefs.append(lambda t, v=v: v + t)
                k += 1
            strings.append([plain(l), plain(l2)])
        with ctx.case("many", i, (n, len(strings), ctx.size), desc={"prefactors": n, "strings": len(strings), "ranks": ctx.size}):
            S = zoo.basis((N,))
            for t in (0.3, -0.2, 0.45):
                if t == 0.45:       # extended after it had been used
                    O.add(op.scal_opstr(lambda t: 2. - t, (op.Sx(1), op.Sz(0))))
                    strings.append([plain(op.Sx(1)), plain(op.Sz(0))])
                    prefs.append(lambda t: 2. - t)
                sp, m = O.get_s_primes(zoo.spread_over(S, D), t)
                m = np.asarray(m).reshape(len(S), -1)
                sp = np.asarray(sp).reshape(len(S), m.shape[1], N)
                pv = [f(t) for f in prefs]
                for a in range(len(S)):
                    want = reference(strings, pv, tuple(int(x) for x in S[a]))
                    got = {}
                    for b in range(m.shape[1]):
                        if m[a, b] != 0:
                            c = tuple(int(x) for x in sp[a, b])
                            got[c] = got.get(c, 0) + m[a, b]
                    keys = sorted(set(want) | set(got))
                    ctx.count("elements", len(keys))
                    ctx.eq([got.get(c, 0) for c in keys], [want.get(c, 0) for c in keys],
                           "matrix element of an operator with many prefactors differs from the composition of the local maps",
                           rtol=0, atol=1e-9 + 1.01e-6 * len(strings) / 4, s=S[a], t=t, ranks=ctx.size)
            ctx.count("many_prefactors")
            ctx.count("operators")
