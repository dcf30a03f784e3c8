"""C17: the time steppers integrate y' = f(y, t): formulae, calls of the right hand side, error control, order, evolution of states."""
RULE = ("a case = one stepper x ODE (linear, nonlinear, explicitly time dependent, aliasing, complex; NumPy or JAX arrays) x step sizes, followed over several "
        "steps with every call of the right hand side recorded; or one state propagated with the variational equation and compared with the exact evolution; "
        "non-trivial when f is not constant")
REQUIRED = {"euler_steps": 20, "heun_steps": 20, "adaptive_steps": 60, "rejected": 10, "capped_by_maxStep": 5, "order": 6, "custom_norm": 5,
            "aliasing_rhs": 3, "evolutions": 6, "rhs_calls": 400}


def SHARDS(tier):
    out = [{"fn": "ode", "dev": 1, "key": "o%d" % k} for k in range(2)] + [{"fn": "evolve", "dev": d, "key": "e%d" % d} for d in (1, 2)]
    out += [{"fn": "evolve", "dev": 1, "ranks": 2, "mpi": True, "key": "em"}]
    if tier == "thorough":
        out += [{"fn": "ode", "dev": 1, "key": "o%d" % k} for k in (2, 3, 4)] + [{"fn": "evolve", "dev": 3, "key": "e3"}]
    return out


def odes(rng):
    """name -> (f(y, t, a), dtype, dimension)"""
    import numpy as np
    n = 3
    A = rng.normal(size=(n, n))
    A = A - A.T - 0.3 * np.eye(n)
    B = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    B = 1j * (B + B.conj().T) / 2
    w = float(rng.uniform(0.5, 3))
    return {
        "linear": (lambda y, t, a: a * (A @ y), float, n),
        "unitary": (lambda y, t, a: a * (B @ y), complex, n),
        "driven": (lambda y, t, a: a * (A @ y) + w * (y * 0 + 1) * (1. + (w * t) ** 2) ** 0.5, float, n),
        "timeonly": (lambda y, t, a: a * (y * 0 + 1) * (3 * t ** 2 + w), float, n),
        "riccati": (lambda y, t, a: a * (1. - y ** 2) * (1 + t), float, n),
        "alias": (lambda y, t, a: y, float, n),
        "stiffening": (lambda y, t, a: a * (-30. * t * y), float, n),
    }


def heun(f, y, t, dt):
    k0 = f(y, t)
    k1 = f(y + dt * k0, t + dt)
    return y + 0.5 * dt * (k0 + k1)


class Spy:
    """right hand side that records how it is called"""

    def __init__(self, f, a, mustnot=()):
        self.f, self.a, self.log, self.bad = f, a, [], []

    def __call__(self, y, t, *, alpha, extra=None, dt=None, intStep):
        import numpy as np
        if alpha != self.a or extra != "x":
            self.bad.append((alpha, extra))
        self.log.append((np.array(y), float(t), intStep))
        return self.f(y, t, alpha)


def ode(ctx):
    import numpy as np
    import jax.numpy as jnp
    import jVMC
    st = jVMC.util.stepper
    names = ["linear", "unitary", "driven", "timeonly", "riccati", "alias", "stiffening"]
    for i, rng in ctx.cases("ode", ctx.n(21, 200)):
        name = names[i % len(names)]
        f, dt_, n = odes(rng)[name]
        a = round(float(rng.uniform(0.5, 1.5)), 3)
        slow = name in ("linear", "unitary") and (i // 7) % 2 == 1        # steps much larger than one
        if slow:
            a = round(0.01 * a, 5)
        g = lambda y, t: f(y, t, a)
        usejax = bool(rng.integers(2)) and name != "alias"
        if name == "alias" and i % 2:
            usejax = True
        arr = jnp.array if usejax else np.array
        y0 = rng.normal(size=n) + (1j * rng.normal(size=n) if dt_ is complex else 0)
        t0 = float(rng.uniform(0 if name == "stiffening" else -1, 1))
        if name == "alias":
            ctx.count("aliasing_rhs")
        for kind in ("euler", "heun", "adaptive"):
            with ctx.case("ode", i, (name, kind, usejax, a), desc={"ode": name, "stepper": kind, "jax": usejax, "a": a, "t0": t0, "y0": y0}):
                spy = Spy(f, a)
                y, t = arr(y0), t0
                dt = float(rng.uniform(0.01, 0.1))
                if kind == "euler":
                    S = st.Euler(timeStep=dt)
                    for _ in range(3):
                        y_in = np.array(y)
                        spy.log.clear()
                        y, used = S.step(t, spy, y, alpha=a, extra="x")
                        ctx.same(float(used), dt, "Euler reports a step size it did not use")
                        ctx.eq(np.asarray(y), y_in + dt * np.asarray(g(y_in, t)), "Euler step", rtol=1e-13, atol=1e-13)
                        ctx.ok(len(spy.log) == 1 and spy.log[0][2] == 0 and spy.log[0][1] == t and np.array_equal(spy.log[0][0], y_in), "Euler evaluates the right hand side elsewhere", calls=str(spy.log))
                        ctx.count("rhs_calls", len(spy.log))
                        ctx.count("euler_steps")
                        t += dt
                elif kind == "heun":
                    S = st.Heun(timeStep=dt)
                    for k in range(4):
                        y_in = np.array(y)
                        spy.log.clear()
                        kw = {}
                        want_dt = dt
                        if k == 1:
                            want_dt = dt = 0.7 * dt
                            S.set_dt(dt)
                        if k >= 2:
                            want_dt = [0.5, 1.6][k - 2] * dt
                            kw["dt"] = want_dt
                        before = y
                        y, used = S.step(t, spy, y, alpha=a, extra="x", **kw)
                        ctx.ok(np.array_equal(np.asarray(before), y_in), "Heun modifies the initial value")
                        ctx.same(float(used), want_dt, "Heun reports a step size it did not use")
                        ctx.eq(np.asarray(y), np.asarray(heun(g, y_in, t, want_dt)), "Heun step", rtol=1e-13, atol=1e-13)
                        ctx.ok([c[2] for c in spy.log] == list(range(len(spy.log))), "stage numbers passed to the right hand side", stages=[c[2] for c in spy.log])
                        ctx.ok(spy.log[0][1] == t and np.array_equal(spy.log[0][0], y_in), "stage 0 is not the initial point")
                        ctx.count("rhs_calls", len(spy.log))
                        ctx.count("heun_steps")
                        t += want_dt
                else:
                    tol = float(rng.choice([1e-3, 1e-5, 1e-7]))
                    mx = float(rng.choice([1., 0.2, 0.03]))
                    first = float(rng.choice([1e-3, 0.05, 0.5, 3.]))
                    if slow:
                        tol, mx, first = 1e-3, 40., 0.7
                        ctx.count("large_steps")
                    S = st.AdaptiveHeun(timeStep=first, tol=tol, maxStep=mx)
                    norm = jnp.linalg.norm
                    kw = {}
                    if rng.integers(2):
                        norm = lambda v: 30. * jnp.max(jnp.abs(v))
                        kw["normFunction"] = norm
                        ctx.count("custom_norm")
                    prev = first
                    for k in range(8):
                        y_in = np.array(y)
                        spy.log.clear()
                        before = y
                        y, used = S.step(t, spy, y, alpha=a, extra="x", **kw)
                        used = float(used)
                        ctx.ok(np.array_equal(np.asarray(before), y_in), "AdaptiveHeun modifies the initial value")
                        ctx.ok(0 < used <= mx, "step size outside (0, maxStep]", used=used, maxStep=mx, step=k)
                        ctx.ok(used <= 2 * prev * (1 + 1e-9), "step size more than doubled", used=used, previous=prev)
                        full = heun(g, y_in, t, used)
                        half = heun(g, y_in, t, 0.5 * used)
                        two = heun(g, half, t + 0.5 * used, 0.5 * used)
                        ctx.eq(np.asarray(y), np.asarray(two), "adaptive step is not two Heun steps of half the reported step size", rtol=1e-12, atol=1e-12, used=used, t=t)
                        err = float(norm(jnp.array(two - full)))
                        ctx.ok(err <= tol * (1 + 1e-6) + 1e-14, "integration error of the accepted step exceeds the tolerance", err=err, tol=tol, used=used)
                        # the attempts of this step: stage 0 always at the initial point, later stages inside the attempted step
                        ctx.ok(any(c[2] == 0 for c in spy.log), "no attempt starts with stage 0", stages=[c[2] for c in spy.log])
                        for c in spy.log:
                            if c[2] == 0:
                                ctx.ok(c[1] == t and np.array_equal(c[0], y_in), "stage 0 is not the initial point", call=str(c))
                        ends = []           # an attempt starts with stage 1 (stage 0 may be shared by the attempts)
                        for c in spy.log:
                            if c[2] == 1:
                                ends.append(c[1])
                            elif c[2] > 1 and ends:
                                ends[-1] = max(ends[-1], c[1])
                        ctx.ok(bool(ends) and abs(ends[-1] - t - used) <= 1e-12, "times at which the right hand side is evaluated", ends=ends, t=t, used=used)
                        tries = len(ends)
                        if tries > 1:
                            ctx.count("rejected", tries - 1)
                            ctx.ok(all(ends[q + 1] < ends[q] for q in range(len(ends) - 1)), "a rejected step was not repeated with a smaller step size", ends=ends)
                        # every attempt that was not accepted really violated the tolerance
                        for e in ends[:-1]:
                            d = e - t
                            h2 = heun(g, y_in, t, 0.5 * d)
                            e2 = float(norm(jnp.array(heun(g, h2, t + 0.5 * d, 0.5 * d) - heun(g, y_in, t, d))))
                            ctx.ok(e2 >= tol * (1 - 1e-6), "an attempt within the tolerance was rejected", err=e2, tol=tol, dt=d)
                        if used == mx:
                            ctx.count("capped_by_maxStep")
                        if k and low:
                            ctx.ok(used > 1.0001 * prev or tries > 1 or used == mx, "step size does not grow although the error is far below the tolerance", used=used, previous=prev)
                        low = err < 0.2 * tol and used < mx
                        ctx.count("rhs_calls", len(spy.log))
                        ctx.count("adaptive_steps")
                        prev = used
                        t += used
                ctx.ok(not spy.bad, "arguments for the right hand side were not handed over", bad=spy.bad)

    # order of convergence and adaptive accuracy over an interval
    for i, rng in ctx.cases("order", ctx.n(4, 30)):
        name = ["linear", "unitary", "driven", "riccati"][i % 4]
        f, dt_, n = odes(rng)[name]
        y0 = 0.5 * rng.normal(size=n) + (0.5j * rng.normal(size=n) if dt_ is complex else 0)
        T = 0.5
        rhs = lambda y, t, intStep, **k: f(y, t, 1.)
        from scipy.integrate import solve_ivp
        ref = solve_ivp(lambda t, y: f(y, t, 1.), (0, T), y0 + 0j if dt_ is complex else y0, rtol=1e-12, atol=1e-13).y[:, -1]
        with ctx.case("order", i, name, desc={"ode": name, "y0": y0}):
            for cls, want in ((st.Euler, 1), (st.Heun, 2)):
                errs = []
                for m in (40, 80, 160):
                    S = cls(timeStep=T / m)
                    y, t = np.array(y0), 0.
                    for _ in range(m):
                        y, dt = S.step(t, rhs, y)
                        t += dt
                    errs.append(np.linalg.norm(y - ref))
                p = np.log2(errs[1] / errs[2])
                ctx.ok(errs[2] < 1e-9 or want - 0.35 < p, "order of convergence", stepper=cls.__name__, order=p, errors=errs)
                ctx.count("order")
            errs = []
            for tol in (1e-4, 1e-7):
                S = st.AdaptiveHeun(timeStep=0.01, tol=tol, maxStep=0.5)
                y, t = np.array(y0), 0.
                while t < T - 1e-12:
                    S.maxStep = min(S.maxStep, T - t)
                    y, dt = S.step(t, rhs, y)
                    t += float(dt)
                errs.append(np.linalg.norm(np.asarray(y) - ref))
            ctx.ok(errs[1] < 1e-4 * 5 and (errs[1] < 0.1 * errs[0] or errs[1] < 1e-7), "adaptive integration does not converge with the tolerance", errors=errs)
            ctx.count("order")


def evolve(ctx):
    """real-, imaginary-time and driven evolution of states with one parameter (pair) per basis state"""
    import numpy as np
    import jax.numpy as jnp
    from scipy.integrate import solve_ivp
    import jVMC
    import jVMC.operator as op
    from lib import zoo, tv
    st = jVMC.util.stepper
    for i, rng in ctx.cases("evolve", ctx.n(3, 12), cap=ctx.n(90, 500)):
        shape = [(2,), (3,)][i % 2]
        N = int(np.prod(shape))
        timedep = bool(i % 3 == 0)
        mkH, strings, prefs = tv.rand_ham(op, rng, N, timedep)
        kind = ["cpx", "re"][int(rng.integers(2))]
        x = 1. if i % 3 == 1 else 1j
        which = ["adaptive", "heun", "adaptive"][i % 3]
        T = 0.3
        t0 = float(rng.uniform(0, 1)) if timedep else 0.
        with ctx.case("evolve", i, (shape, timedep, kind, str(x), which), desc={"shape": shape, "driven": timedep, "kind": kind, "prefactor": str(x), "stepper": which}):
            psi, vals = zoo.table(jVMC, shape, 2, kind, rng, scale=0.5)
            H = mkH()
            eq = jVMC.util.TDVP(jVMC.sampler.ExactSampler(psi, shape), rhsPrefactor=x, makeReal="imag" if x == 1j else "real", pinvTol=1e-13, pinvCutoff=1e-9)
            tol = 1e-5
            S = st.AdaptiveHeun(timeStep=1e-2, tol=tol, maxStep=0.1) if which == "adaptive" else st.Heun(timeStep=0.02)
            t, E = t0, []
            while t < t0 + T - 1e-9:
                kw = {}
                if which == "adaptive":
                    S.maxStep = min(S.maxStep, t0 + T - t)
                    kw["normFunction"] = lambda v: jnp.real(jnp.sqrt(jnp.abs(jnp.conj(v) @ eq.S_dot(v))))
                else:
                    kw["dt"] = min(0.02, t0 + T - t)
                p, dt = S.step(t, eq, psi.get_parameters(), hamiltonian=H, psi=psi, **kw)
                E.append(float(eq.get_energy_mean()))
                psi.set_parameters(p)
                t += float(dt)
            full = zoo.basis(shape)
            got = np.exp(zoo.psi_raw(psi, full))
            got = got / np.linalg.norm(got)
            v0 = np.exp(vals)
            sol = solve_ivp(lambda s, v: -x * (tv.dense(strings, prefs, N, s) @ v), (t0, t0 + T), (v0 / np.linalg.norm(v0)).astype(complex), rtol=1e-9, atol=1e-10)
            ref = sol.y[:, -1] / np.linalg.norm(sol.y[:, -1])
            inf = 1 - abs(np.vdot(ref, got)) ** 2
            ctx.ok(inf < 2e-5, "evolved state differs from the exact evolution", infidelity=inf, steps=len(E))
            if x == 1j and not timedep:
                ctx.ok(np.max(np.abs(np.array(E) - E[0])) < 5e-3 * (1 + abs(E[0])), "energy is not conserved under unitary evolution", E=E)
            if x == 1. and not timedep:
                ctx.ok(np.all(np.diff(E) < 1e-9), "energy increases in imaginary time", E=E)
            ctx.count("evolutions")
