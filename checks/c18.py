"""C18: the output file is the log of what was written: histories of writes, groups, re-opening and restarts against a model of the file."""
RULE = ("a case = one random history of writes, group changes, re-openings and checkpoint queries on a scratch file, replayed against a plain model; "
        "after every operation the whole file is read back; non-trivial when the history has at least two records")
REQUIRED = {"long_runs": 2, "operations": 400, "file_comparisons": 300, "group_changes": 30, "back_to_root": 5, "reopen_append": 15, "reopen_truncate": 5, "checkpoint_queries": 60,
            "restarts": 6, "timings": 30, "two_managers": 3, "mismatch": 15}


def SHARDS(tier):
    out = [{"fn": "run", "dev": 1, "key": "h%d" % k} for k in range(2)] + [{"fn": "run", "dev": 1, "ranks": r, "mpi": True, "key": "m%d" % r} for r in (2, 3)]
    return out


def snapshot(fn):
    import h5py
    import numpy as np
    out, groups = {}, set()

    def visit(name, o):
        if isinstance(o, h5py.Dataset):
            out["/" + name] = np.array(o)
        else:
            groups.add("/" + name)
    with h5py.File(fn, "r") as f:
        f.visititems(visit)
    return out, groups


class Model:
    def __init__(self):
        self.d = {}

    def append(self, path, value):
        self.d.setdefault(path, []).append(value)


def virtual_clock(clock):
    """all clocks of the standard library, wherever the library under test refers to them. -> function that restores them"""
    import sys
    import time
    undo = []
    mods = [time] + [m for n, m in list(sys.modules.items()) if m is not None and (n == "jVMC" or n.startswith("jVMC."))]
    for name in ("perf_counter", "time", "monotonic", "perf_counter_ns", "time_ns", "monotonic_ns"):
        orig = getattr(time, name)
        fake = (lambda: int(round(clock[0] * 1e9))) if name.endswith("_ns") else (lambda: clock[0])
        for m in mods:
            for k, v in list(vars(m).items()):
                if v is orig:
                    undo.append((m, k, v))
                    setattr(m, k, fake)

    def restore():
        for m, k, v in undo:
            setattr(m, k, v)
    return restore


def run(ctx):
    import io
    import os
    import time
    import contextlib
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    from lib import zoo
    OM = jVMC.util.OutputManager

    def quiet(f, *a, **k):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = f(*a, **k)
        return r, buf.getvalue()

    for i, rng in ctx.cases("history", ctx.n(20, 120), cap=ctx.n(60, 600)):
        fn = os.path.join(ctx.outdir, "h%d_%s.hdf5" % (i, ctx.spec["key"]))
        hist = []
        with ctx.case("history", i, (ctx.spec["key"], i), desc={"file": os.path.basename(fn)}):
            m = Model()
            P = int(rng.integers(2, 6))
            groups = ["/", "runA", "runB", "runA/sub"]
            g0 = groups[int(rng.integers(3))]
            o, _ = quiet(OM, fn, **({} if g0 == "/" and i % 2 else {"group": g0}))
            cur = g0
            managers = [(o, cur)]
            one = []       # datasets that may only be written once
            cps = {}       # group -> list of (time, weights)
            T = 0.
            base = lambda g: "" if g == "/" else "/" + g
            asarr = lambda v: [np.asarray, jnp.asarray][int(rng.integers(2))](v)
            nop = ctx.n(30, 60)
            for step in range(nop):
                k = rng.choice(["obs", "obs", "meta", "cp", "cp", "query", "query", "group", "append", "truncate", "dataset", "error", "other", "mismatch"],
                               p=[.13, .13, .1, .13, .07, .1, .08, .1, .06, .02, .03, .02, .02, .01])
                if step == nop // 2:
                    k = "mismatch"
                o, cur = managers[-1]
                # times need not be ordered: a resumed simulation goes back
                T = round(T + float(rng.uniform(0.01, 1)) if rng.integers(8) else float(rng.uniform(0, T + 1)), 6)
                b = base(cur)
                if k == "obs":
                    names = [n for n in ("energy", "mag", "corr") if rng.integers(4)] or ["energy"]
                    kw = {}
                    for n in names:
                        sh = {"energy": (1,), "mag": (), "corr": (2, 3)}[n]
                        kw[n] = {q: asarr(rng.normal(size=sh)) for q in ("mean", "variance", "MC_error") if q == "mean" or rng.integers(2)}
                    quiet(o.write_observables, T, **kw)
                    m.append(b + "/observables/times", T)
                    for n, dd in kw.items():
                        for q, v in dd.items():
                            m.append(b + "/observables/" + n + "/" + q, np.asarray(v))
                elif k == "meta":
                    kw = {"tdvp_error": asarr(rng.normal(size=())), "spectrum": asarr(rng.normal(size=(P,)))}
                    quiet(o.write_metadata, T, **kw)
                    m.append(b + "/metadata/times", T)
                    for n, v in kw.items():
                        m.append(b + "/metadata/" + n, np.asarray(v))
                elif k == "cp":
                    w = rng.normal(size=P)
                    quiet(o.write_network_checkpoint, T, asarr(w))
                    m.append(b + "/network_checkpoints/times", T)
                    m.append(b + "/network_checkpoints/checkpoints", w)
                    cps.setdefault(cur, []).append((T, w))
                elif k == "query":
                    L = cps.get(cur, [])
                    if not L:
                        continue
                    how = int(rng.integers(4))
                    if how == 0:
                        want = L[-1]
                        (t, w), _ = quiet(o.get_network_checkpoint)
                    elif how == 1:
                        n = int(rng.integers(-len(L), len(L)))
                        want = L[n]
                        (t, w), _ = quiet(o.get_network_checkpoint, idx=n)
                    elif how == 2:
                        want = L[int(rng.integers(len(L)))]
                        (t, w), _ = quiet(o.get_network_checkpoint, want[0])
                    else:
                        q = float(rng.uniform(0, T + 1))
                        d = [abs(x[0] - q) for x in L]
                        want = L[int(np.argmin(d))]
                        if len(d) > 1 and abs(np.sort(d)[1] - np.sort(d)[0]) < 1e-9:
                            continue
                        (t, w), _ = quiet(o.get_network_checkpoint, time=q)
                    ctx.eq(t, want[0], "checkpoint query returns a wrong time", rtol=0, atol=0, how=how)
                    ctx.eq(np.asarray(w), want[1], "checkpoint query returns wrong weights", rtol=0, atol=0, how=how)
                    ctx.count("checkpoint_queries")
                elif k == "mismatch":
                    # a record of another shape (another network, another set of observables) must not damage the ones that are there
                    have = [q for q in m.d if isinstance(m.d[q], list) and q.startswith(b + "/") and q[len(b):].split("/")[1] in ("observables", "network_checkpoints", "metadata") and not q.endswith("/times")]
                    if not have:
                        continue
                    path = have[int(rng.integers(len(have)))]
                    sh = np.shape(m.d[path][0])
                    new = [sh[:-1] + (max(1, sh[-1] - 1) + (sh[-1] == 1),), sh + (2,), sh[:-1] + (sh[-1] + 1,)][int(rng.integers(3))] if sh else (2,)
                    v = asarr(rng.normal(size=new))
                    part = path[len(b) + 1:].split("/")
                    try:
                        if part[0] == "observables":
                            quiet(o.write_observables, T, **{part[1]: {part[2]: v}})
                        elif part[0] == "metadata":
                            quiet(o.write_metadata, T, **{part[1]: v})
                        else:
                            quiet(o.write_network_checkpoint, T, v)
                        refused = False
                    except Exception:
                        refused = True
                    ctx.count("mismatch")
                    if not refused and ctx.rank == 0:
                        # accepting it would be another way of keeping the earlier records: they have to be unchanged
                        got, _ = snapshot(fn)
                        for q, x in m.d.items():
                            if isinstance(x, list):
                                ctx.ok(q in got and np.shape(got[q])[1:] == np.shape(x[0]) and np.array_equal(np.asarray(got[q])[:len(x)], np.asarray(x, dtype=float)), "a record of another shape changed earlier records", path=q, written=path, shape=new)
                    if ctx.size > 1:
                        refused = ctx.comm.bcast(refused, root=0)
                    if not refused:
                        break
                elif k == "group":
                    g = groups[int(rng.integers(len(groups)))]
                    quiet(o.set_group, g)
                    managers[-1] = (o, g)
                    ctx.count("group_changes")
                    if g == "/" and cur != "/":
                        ctx.count("back_to_root")
                elif k in ("append", "truncate"):
                    g = groups[int(rng.integers(len(groups)))]
                    if ctx.size > 1:
                        ctx.comm.Barrier()
                    o2, _ = quiet(OM, fn, group=g, append=(k == "append"))
                    managers.append((o2, g))
                    if k == "truncate":
                        m, cps, one = Model(), {}, []
                        managers = managers[-1:]
                        ctx.count("reopen_truncate")
                    else:
                        ctx.count("reopen_append")
                elif k == "other" and len(managers) > 1:
                    # another manager of the same file goes on writing
                    managers = [managers[-1]] + managers[:-1]
                    ctx.count("two_managers")
                elif k == "dataset":
                    n, gg = "d%d" % step, ["/", "extra"][int(rng.integers(2))]
                    v = asarr(rng.normal(size=(2, int(rng.integers(1, 4)))))
                    rk = int(rng.integers(ctx.size))
                    if ctx.size > 1:
                        ctx.comm.Barrier()
                    quiet(o.write_dataset, n, v if ctx.rank == rk else np.zeros(1), groupname=gg, mpiRank=rk)
                    if ctx.size > 1:
                        ctx.comm.Barrier()
                    m.d[("" if gg == "/" else "/" + gg) + "/" + n] = np.asarray(v)
                elif k == "error":
                    v = rng.normal(size=3)
                    rk = int(rng.integers(ctx.size))
                    if ctx.size > 1:
                        ctx.comm.Barrier()
                    quiet(o.write_error_data, "e%d" % step, v, mpiRank=rk)
                    if ctx.size > 1:
                        ctx.comm.Barrier()
                    m.d["/error_data/e%d" % step] = v
                else:
                    continue
                hist.append(str(k))
                ctx.count("operations")
                if ctx.size > 1:
                    ctx.comm.Barrier()
                if ctx.rank == 0:
                    got, grp = snapshot(fn)
                    ctx.same(sorted(got), sorted(m.d), "datasets in the file differ from what was written", history=hist[-12:])
                    for path, v in m.d.items():
                        if path in got and not ctx.eq(got[path], np.asarray(v, dtype=float), "content of the file differs from what was written", rtol=0, atol=0, path=path, history=hist[-12:]):
                            break
                    ctx.count("file_comparisons")
                if ctx.size > 1:
                    ctx.comm.Barrier()
            if ctx.rank == 0 and os.path.exists(fn):
                os.unlink(fn)
            if ctx.size > 1:
                ctx.comm.Barrier()

    # a long run with many parameters
    for i, rng in ctx.cases("long", ctx.n(1, 3)):
        with ctx.case("long", i, (ctx.spec["key"], i)):
            fn = os.path.join(ctx.outdir, "l%d_%s.hdf5" % (i, ctx.spec["key"]))
            P = int(rng.integers(2000, 5000))
            ref = {"t": [], "w": [], "e": [], "s": []}
            for part in range(3):
                o, _ = quiet(OM, fn, append=part > 0)
                for k in range(130):
                    T = round(0.01 * len(ref["t"]), 6)
                    w, e, sp = rng.normal(size=P), rng.normal(size=()), rng.normal(size=(40,))
                    quiet(o.write_observables, T, energy={"mean": jnp.asarray(e)})
                    quiet(o.write_metadata, T, spectrum=jnp.asarray(sp))
                    quiet(o.write_network_checkpoint, T, jnp.asarray(w))
                    for q, v in zip("twes", (T, w, e, sp)):
                        ref[q].append(v)
            if ctx.size > 1:
                ctx.comm.Barrier()
            for k in (0, 1, 100, 257, len(ref["t"]) - 1):
                (t, w), _ = quiet(o.get_network_checkpoint, time=ref["t"][k])
                ctx.eq(t, ref["t"][k], "checkpoint query of a long run returns a wrong time", rtol=0, atol=0)
                ctx.eq(np.asarray(w), ref["w"][k], "checkpoint query of a long run returns wrong weights", rtol=0, atol=0)
            if ctx.rank == 0:
                got, _ = snapshot(fn)
                for path, q in (("/observables/times", "t"), ("/observables/energy/mean", "e"), ("/metadata/times", "t"), ("/metadata/spectrum", "s"),
                                ("/network_checkpoints/times", "t"), ("/network_checkpoints/checkpoints", "w")):
                    ctx.need(path in got, "dataset missing after a long run", path=path, have=sorted(got))
                    ctx.eq(got[path], np.asarray(ref[q]), "content of the file differs from what was written in a long run", rtol=0, atol=0, path=path)
                os.unlink(fn)
            ctx.count("long_runs")
            if ctx.size > 1:
                ctx.comm.Barrier()

    # a simulation that is interrupted and resumed from its checkpoint continues with the same state
    for i, rng in ctx.cases("restart", ctx.n(3, 12)):
        name = ["CpxRBM", "TwoNets", "RNN"][i % 3]
        with ctx.case("restart", i, name):
            fn = os.path.join(ctx.outdir, "r%d_%s.hdf5" % (i, ctx.spec["key"]))
            psi, shape, _ = zoo.make_psi(jVMC, name, rng)
            o, _ = quiet(OM, fn, append=True, group="g")
            saved = []
            for k in range(3):
                psi.set_parameters(psi.get_parameters() + jnp.array(rng.normal(size=psi.get_parameters().shape)) * 0.1)
                quiet(o.write_network_checkpoint, 0.5 * k, psi.get_parameters())
                saved.append(zoo.psi_raw(psi, zoo.basis(shape)[:6]))
            if ctx.size > 1:
                ctx.comm.Barrier()
            psi2, _, _ = zoo.make_psi(jVMC, name, rng)
            o2, _ = quiet(OM, fn, append=True, group="g")
            for kw, want in (({}, 2), ({"time": 0.4}, 1), ({"idx": 0}, 0), ({"time": 0.}, 0)):
                (t, w), _ = quiet(o2.get_network_checkpoint, **kw)
                psi2.set_parameters(jnp.asarray(w))
                ctx.eq(float(t), 0.5 * want, "time of the checkpoint", atol=0, rtol=0)
                ctx.eq(zoo.psi_raw(psi2, zoo.basis(shape)[:6]), saved[want], "the ansatz resumed from a checkpoint differs from the saved one", rtol=0, atol=1e-13)
            ctx.count("restarts")
            if ctx.size > 1:
                ctx.comm.Barrier()
            if ctx.rank == 0:
                os.unlink(fn)

    # timings with a virtual clock
    for i, rng in ctx.cases("timing", ctx.n(6, 40)):
        fn = os.path.join(ctx.outdir, "t%d_%s.hdf5" % (i, ctx.spec["key"]))
        with ctx.case("timing", i, i):
            o, _ = quiet(OM, fn)
            clock = [100.]
            undo = virtual_clock(clock)
            try:
                tot, last, running = {}, {}, {}
                sections = ["section %02d" % q for q in range(17)]
                for k in range(120 if i % 3 == 2 else 40):
                    n = ["sampling", "solve", "MPI communication"][int(rng.integers(3))] if i % 3 < 2 else sections[k % len(sections)]
                    clock[0] += float(rng.uniform(0.1, 2))
                    a = int(rng.integers(4))
                    if n == "MPI communication":
                        e = float(rng.uniform(0, 1))
                        o.add_timing(n, e)
                        tot[n] = tot.get(n, 0.) + e
                    elif n in running:
                        o.stop_timing(n)
                        tot[n] = tot.get(n, 0.) + clock[0] - running.pop(n)
                    else:
                        o.start_timing(n)
                        tot.setdefault(n, 0.)
                        running[n] = clock[0]
                    if a == 0:
                        _, txt = quiet(o.print_timings, indent=" ")
                        if ctx.rank == 0:
                            for q, v in tot.items():
                                ln = [l for l in txt.splitlines() if "* " + q + ":" in l]
                                ctx.ok(len(ln) == 1, "timing is not printed once", name=q, text=txt)
                                if ln:
                                    val = float(ln[0].split(":")[-1].strip().rstrip("s"))
                                    ctx.eq(val, v - last.get(q, 0.), "printed timing is not the time since the last print", rtol=0, atol=2e-6)
                                    ctx.count("timings")
                        else:
                            ctx.same(txt, "", "a rank other than 0 prints")
                        last = dict(tot)
            finally:
                undo()
            if ctx.size > 1:
                ctx.comm.Barrier()
            if ctx.rank == 0:
                os.unlink(fn)
