"""C12: POVM operators generate exactly the Lindblad / imaginary-time evolution of the declared terms."""
RULE = ("a case = one random set of one-, two- and three-site unitary, dissipative and imaginary-time terms (built-in and user-defined, "
        "overlapping sites in any order) on a random lattice and a random POVM frame, compared element by element with the dense "
        "generator; non-trivial when at least two terms act")
REQUIRED = {"large": 8, "generators": 20, "elements": 4000, "frames": 10, "overlapping": 8, "user_terms": 8, "trace_preserving": 8, "recompiled": 5,
            "shared_dictionaries": 3, "name_clash": 4, "lattice2d": 2}


def SHARDS(tier):
    out = [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in enumerate([1, 2, 1, 4])]
    if tier == "thorough":
        out += [{"fn": "run", "part": p, "dev": d, "key": "p%d" % p} for p, d in zip(range(4, 8), [1, 2, 4, 1])]
    return out


SX = [[0, 1], [1, 0]]
SY = [[0, -1j], [1j, 0]]
SZ = [[1, 0], [0, -1]]


def kron_all(ms):
    import numpy as np
    out = np.eye(1)
    for m in ms:
        out = np.kron(out, m)
    return out


def embed(A, sites, N):
    """matrix on ``sites`` (first site = first factor) -> matrix on N qubits (site 0 = first factor)"""
    import numpy as np
    k = len(sites)
    A = np.asarray(A, complex).reshape((2,) * (2 * k))
    rest = [i for i in range(N) if i not in sites]
    full = A
    for _ in rest:
        full = np.multiply.outer(full, np.eye(2))
    # axes: out sites (k), in sites (k), then (out,in) per rest
    out_ax, in_ax = {}, {}
    for j, s in enumerate(sites):
        out_ax[s], in_ax[s] = j, k + j
    for j, s in enumerate(rest):
        out_ax[s], in_ax[s] = 2 * k + 2 * j, 2 * k + 2 * j + 1
    perm = [out_ax[i] for i in range(N)] + [in_ax[i] for i in range(N)]
    return full.transpose(perm).reshape(2 ** N, 2 ** N)


class Frame:
    """product POVM frame and its dual, computed independently of the library"""

    def __init__(self, M, N):
        import numpy as np
        M = np.asarray(M, complex)
        G = M.reshape(4, 4)
        # dual: rho = sum_a P^a Dual_a with Tr(M_a Dual_b) = delta_ab
        A = np.array([m.T.ravel() for m in M])         # Tr(M_a X) = A_a . vec(X)
        Dv = np.linalg.inv(A)                            # columns = vec(Dual_b)
        self.M, self.Dual = M, np.array([Dv[:, b].reshape(2, 2) for b in range(4)])
        self.N = N

    def product(self, which, c):
        import numpy as np
        base = self.M if which == "M" else self.Dual
        return kron_all([base[a] for a in c])

    def all(self, which):
        import numpy as np
        base = self.M if which == "M" else self.Dual
        cur = np.ones((1, 1, 1))
        for _ in range(self.N):
            cur = np.einsum("aij,bkl->abikjl", cur, base).reshape(cur.shape[0] * 4, cur.shape[1] * 2, cur.shape[2] * 2)
        return cur       # index: site 0 most significant


def generator(frame, terms):
    """dense W[a,b], a/b with site 0 most significant. terms: (mode, matrix, sites, strength)"""
    import numpy as np
    N = frame.N
    M, Du = frame.all("M"), frame.all("D")
    L = np.zeros_like(Du, dtype=complex)
    for mode, A, sites, g in terms:
        F = embed(A, sites, N)
        if mode == "unitary":
            L += g * (-1j) * (F @ Du - Du @ F)
        elif mode == "imaginary":
            L += -g * (F @ Du + Du @ F)
        else:
            Fd = F.conj().T
            L += g * (F @ Du @ Fd - 0.5 * (Fd @ F @ Du + Du @ Fd @ F))
    W = np.einsum("aij,bji->ab", M, L)
    assert np.max(np.abs(W.imag)) < 1e-9 * max(1., np.max(np.abs(W)))
    return W.real


def run(ctx):
    import numpy as np
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    D = ctx.dev
    X, Y, Z = (np.array(m, complex) for m in (SX, SY, SZ))
    builtin = {"X": ("unitary", X), "Y": ("unitary", Y), "Z": ("unitary", Z), "XX": ("unitary", np.kron(X, X)), "YY": ("unitary", np.kron(Y, Y)),
               "ZZ": ("unitary", np.kron(Z, Z)), "decayup": ("dissipative", (X + 1j * Y) / 2), "decaydown": ("dissipative", (X - 1j * Y) / 2),
               "dephasing": ("dissipative", Z)}

    def frameM(povm, k):
        M = np.asarray(povm.M)
        cur = np.ones((1, 1, 1))
        for _ in range(k):
            cur = np.einsum("aij,bkl->abikjl", cur, M).reshape(cur.shape[0] * 4, cur.shape[1] * 2, cur.shape[2] * 2)
        Ti = np.ones((1, 1))
        for _ in range(k):
            Ti = np.kron(Ti, np.asarray(povm.T_inv))
        return jnp.array(cur), jnp.array(Ti)

    for i, rng in ctx.cases("gen", ctx.n(24, 80), cap=ctx.n(60, 600)):
        shape = [(3,), (2,), (2, 2), (1,), (3,), (4,), (1, 3), (3,)][i % 8]
        N = int(np.prod(shape))
        th, ph = (0., 0.) if i % 4 == 0 else (float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3)))
        povm = op.POVM({"dim": "1D", "L": N}, theta=th, phi=ph)
        modes = dict(builtin)
        kmax = min(N, 3 if i % 3 == 0 else 2)
        nuser = int(rng.integers(0 if kmax < 3 else 1, 4))
        for u in range(nuser):
            k = kmax if u == 0 else int(rng.integers(1, kmax + 1))
            A = rng.normal(size=(2 ** k, 2 ** k)) + 1j * rng.normal(size=(2 ** k, 2 ** k))
            mode = ["unitary", "dissipative", "imaginary"][int(rng.integers(3))]
            if mode != "dissipative":
                A = A + A.conj().T
            om = op.matrix_to_povm(jnp.array(A), *frameM(povm, k), mode=mode if rng.integers(2) else {"unitary": "uni", "dissipative": "dis", "imaginary": "imag"}[mode])
            nm = "user%d" % u
            {"unitary": povm.add_unitary, "dissipative": povm.add_dissipator, "imaginary": povm.add_imaginary}[mode](nm, om)
            modes[nm] = (mode, A)
        size = {n: {2: 1, 4: 2, 8: 3}[m[1].shape[0]] for n, m in modes.items()}
        names = [n for n in modes if size[n] <= N]
        pick = ["user%d" % u for u in range(nuser)] + [names[int(rng.integers(len(names)))] for _ in range(int(rng.integers(1, 6)))]
        rng.shuffle(pick)
        terms = [(n, tuple(int(x) for x in rng.permutation(N)[:size[n]]), round(float(rng.uniform(0.2, 2)) * float(rng.choice([-1, 1])), 3)) for n in pick]
        if N >= 3:      # several two-site terms that share their first site
            o = [int(x) for x in rng.permutation(N)]
            terms += [("XX", (o[0], o[1]), 0.6), ("ZZ", (o[0], o[2]), -0.8), ("YY", (o[0], o[1]), 1.1)][:int(rng.integers(1, 4))]
            three = [n for n in pick if size[n] == 3]
            if three:   # the same sites in another order
                terms += [(three[0], (o[0], o[1], o[2]), 0.9), (three[0], (o[0], o[2], o[1]), -0.7 if modes[three[0]][0] != "dissipative" else 0.4)]
                ctx.count("three_site_terms")
            terms = [terms[k] for k in rng.permutation(len(terms))]
        with ctx.case("gen", i, (shape, tuple((t[0], t[1]) for t in terms)), nontrivial=len(terms) > 1,
                      desc={"shape": shape, "theta": th, "phi": ph, "terms": terms}):
            M = np.asarray(povm.M)
            # --- the frame itself
            ctx.eq(M.sum(axis=0), np.eye(2), "POVM effects do not add up to the identity", atol=1e-10)
            ctx.eq(M, np.conj(np.swapaxes(M, 1, 2)), "POVM effect not Hermitian", atol=1e-10)
            ctx.ok(np.min(np.linalg.eigvalsh(M)) > -1e-10, "POVM effect not positive", eig=np.linalg.eigvalsh(M))
            ctx.eq(np.einsum("aij,bji->ab", M, M).real, (2 * np.eye(4) + 1) / 12, "POVM is not a (rotated) SIC POVM", atol=1e-10)
            ctx.eq(np.asarray(povm.T_inv).real @ np.einsum("aij,bji->ab", M, M).real, np.eye(4), "inverse overlap matrix is not the inverse", atol=1e-8)
            ctx.count("frames")
            fr = Frame(M, N)
            O = op.POVMOperator(povm)
            dicts = [{"name": n, "sites": s, "strength": g} for n, s, g in terms]
            keep = [dict(d) for d in dicts]
            for d in dicts:
                O.add(d)
            if i % 2 == 0:
                # some of the same dictionaries serve a second operator in another order
                O2 = op.POVMOperator(povm)
                k2 = int(rng.integers(1, len(dicts) + 1))
                for d in dicts[::-1][:k2]:
                    O2.add(d)
                ctx.count("shared_dictionaries")
            confs = np.array(list(np.ndindex(*(4,) * N)), dtype=np.int32)
            S = confs if len(confs) <= 64 else confs[rng.choice(len(confs), size=24, replace=False)]
            while len(S) % D:
                S = np.concatenate([S, S[:1]])

            def compare(Op, tms, what):
                W = generator(fr, [(modes[n][0], modes[n][1], s, g) for n, s, g in tms])
                sp, m = Op.get_s_primes(jnp.asarray(S.reshape((D, -1) + shape)))
                m = np.asarray(m).reshape(len(S), -1)
                sp = np.asarray(sp)
                ctx.need(sp.shape == (D, m.size // D) + shape, "connected configurations have a wrong shape" + what, shape=sp.shape)
                sp = sp.reshape(len(S), m.shape[1], N)
                w = 4 ** np.arange(N - 1, -1, -1)
                got = np.zeros((len(S), 4 ** N))
                for a in range(len(S)):
                    np.add.at(got[a], sp[a] @ w, m[a])
                ctx.eq(got, W[S @ w], "POVM generator differs from the dense master equation" + what, rtol=0,
                       atol=1e-6 * (len(tms) + 1) + 1e-9 * np.max(np.abs(W)), terms=tms)
                ctx.count("elements", got.size)
                ctx.count("generators")
                if len(S) == 4 ** N and not any(modes[n][0] == "imaginary" for n, _, _ in tms):
                    ctx.eq(got.sum(axis=0), np.zeros(4 ** N), "POVM evolution does not conserve total probability" + what, rtol=0, atol=1e-5 * (len(tms) + 1))
                    ctx.count("trace_preserving")

            compare(O, terms, "")
            if i % 2 == 0:
                compare(O2, terms[::-1][:k2], " (dictionaries shared between operators)")
            # extended after use, also with a dictionary that is already part of it
            t2 = terms[int(rng.integers(len(terms)))]
            O.add(dicts[terms.index(t2)])
            n3 = names[int(rng.integers(len(names)))]
            t3 = (n3, tuple(int(x) for x in rng.permutation(N)[:size[n3]]), 0.75)
            O.add({"name": t3[0], "sites": t3[1], "strength": t3[2]})
            compare(O, terms + [t2, t3], " (extended after use)")
            ctx.count("recompiled")
            if i % 2 == 0:
                O3 = op.POVMOperator(povm)
                for d in dicts:
                    O3.add(d)
                O3.compile()
                compare(O3, terms, " (third operator)")
                compare(O, terms + [t2, t3], " (first operator again)")
            sets = [set(s) for _, s, _ in terms]
            if any(a & b and a != b for a in sets for b in sets):
                ctx.count("overlapping")
            if nuser:
                ctx.count("user_terms")
            if len(shape) > 1:
                ctx.count("lattice2d")
            # --- name clashes are refused and leave the operators alone
            before = {k: np.asarray(v) for k, v in povm.operators.items()}
            for nm in ("X", "dephasing") + (("user0",) if nuser else ()):
                for f in (povm.add_unitary, povm.add_dissipator, povm.add_imaginary):
                    ctx.raises(ValueError, lambda: f(nm, jnp.zeros((4, 4))), "a name clash of POVM operators is not refused", name=nm)
                    ctx.count("name_clash")
            ctx.ok(set(before) == set(povm.operators) and all(np.array_equal(before[k], np.asarray(povm.operators[k])) for k in before),
                   "a refused operator changed the set of operators")

    # ---- lattices beyond dense matrices: every term acts on its sites only, with the dense generator of these sites
    for i, rng in ctx.cases("large", ctx.n(4, 12), cap=ctx.n(40, 300)):
        shape = [(9,), (4, 5), (30,), (12,)][(i + ctx.spec["part"]) % 4]
        N = int(np.prod(shape))
        th, ph = float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3))
        povm = op.POVM({"dim": "1D", "L": N}, theta=th, phi=ph)
        modes = dict(builtin)
        A = rng.normal(size=(8, 8)) + 1j * rng.normal(size=(8, 8))
        m3 = ["unitary", "dissipative", "imaginary"][int(rng.integers(3))]
        if m3 != "dissipative":
            A = A + A.conj().T
        om = op.matrix_to_povm(jnp.array(A), *frameM(povm, 3), mode=m3)
        {"unitary": povm.add_unitary, "dissipative": povm.add_dissipator, "imaginary": povm.add_imaginary}[m3]("three", om)
        modes["three"] = (m3, A)
        size = {n: {2: 1, 4: 2, 8: 3}[m[1].shape[0]] for n, m in modes.items()}
        names = [n for n in modes if n != "three"]
        terms = []
        for l in range(N):
            n = names[int(rng.integers(len(names)))]
            terms.append((n, (l,) if size[n] == 1 else ((l, (l + 1) % N) if rng.integers(2) else ((l + 1) % N, l)), round(float(rng.uniform(.2, 2)), 3)))
        for _ in range(6):
            n = names[int(rng.integers(len(names)))]
            terms.append((n, tuple(int(x) for x in rng.permutation(N)[:size[n]]), round(float(rng.uniform(.2, 2)), 3)))
        hub = int(rng.integers(N))      # one site that couples to many others
        for q in rng.permutation([l for l in range(N) if l != hub])[:8]:
            terms.append((["XX", "YY", "ZZ"][int(rng.integers(3))], (hub, int(q)), round(float(rng.uniform(-2, 2)), 3)))
        if rng.integers(2):
            terms.append(("three", tuple(int(x) for x in rng.permutation(N)[:3]), 0.7))
        terms = [terms[k] for k in rng.permutation(len(terms))]
        with ctx.case("large", i, (shape, len(terms)), desc={"shape": shape, "terms": terms}):
            O = op.POVMOperator(povm)
            for n, s, g in terms:
                O.add({"name": n, "sites": s, "strength": g})
            loc = {n: generator(Frame(np.asarray(povm.M), size[n]), [(modes[n][0], modes[n][1], tuple(range(size[n])), 1.)]) for n in {t[0] for t in terms}}
            S = rng.integers(0, 4, size=(2 * D, N)).astype(np.int32)
            sp, m = O.get_s_primes(jnp.asarray(S.reshape((D, -1) + shape)))
            m = np.asarray(m).reshape(len(S), -1)
            sp = np.asarray(sp).reshape(len(S), m.shape[1], N)
            for a, s in enumerate(S):
                want, got = {}, {}
                for n, sites, g in terms:
                    k = len(sites)
                    row = int("".join(str(int(s[q])) for q in sites), 4)
                    for b in range(4 ** k):
                        t = s.copy()
                        t[list(sites)] = [(b // 4 ** (k - 1 - q)) % 4 for q in range(k)]
                        want[t.tobytes()] = want.get(t.tobytes(), 0.) + g * loc[n][row, b]
                for b in range(m.shape[1]):
                    if m[a, b] != 0:
                        c = sp[a, b].astype(np.int32).tobytes()
                        got[c] = got.get(c, 0.) + m[a, b]
                keys = sorted(set(want) | set(got))
                ctx.eq([got.get(c, 0.) for c in keys], [want.get(c, 0.) for c in keys], "POVM generator of a large lattice differs from the sum of its terms",
                       rtol=0, atol=1e-6 * (len(terms) + 1), s=s)
                ctx.count("elements", len(keys))
            ctx.count("large")
