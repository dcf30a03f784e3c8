"""C20: the library networks compute the documented functions of the configuration (closed-form references), in double precision."""
RULE = ("a case = one network architecture with random parameters and configurations; the amplitude is recomputed in NumPy (long double where possible) from the parameters; "
        "non-trivial when the amplitude is not constant over the configurations")
REQUIRED = {"large_networks": 15, "RBM": 6, "CpxRBM": 6, "FFN": 6, "CNN": 6, "CpxCNN": 6, "TwoNets": 3, "CpxRBM_Nospinflip": 4, "CpxCNNSym": 3, "large_arguments": 6, "activation_functions": 12, "strided": 3, "open_boundary": 4, "two_dimensional": 6, "gradients": 12}


def SHARDS(tier):
    return [{"fn": "run", "dev": 1, "key": "n%d" % k} for k in range(4 if tier == "quick" else 8)] + [{"fn": "run", "dev": 2, "key": "nd"}]


def layers_of(params):
    """[(kernel, bias or None)] in the order of the layers"""
    import re
    import numpy as np
    import jax
    flat = jax.tree_util.tree_flatten_with_path(params)[0]
    groups = {}
    for path, leaf in flat:
        keys = [getattr(k, "key", str(k)) for k in path]
        groups.setdefault(tuple(keys[:-1]), {})[keys[-1]] = np.asarray(leaf)
    nat = lambda g: [[int(x) if x.isdigit() else x for x in re.split(r"(\d+)", str(k))] for k in g]
    return [(groups[g]["kernel"], groups[g].get("bias")) for g in sorted(groups, key=nat)]


def logcosh(z):
    import numpy as np
    z = np.asarray(z)
    z = np.where(np.real(z) < 0, -z, z)
    return z + np.log1p(np.exp(-2. * z)) - np.log(2.)


ACT = None


def acts():
    import numpy as np
    import jax.numpy as jnp
    import flax.linen as nn
    from jVMC.nets import activation_functions as af
    elu = lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0.)))
    return {"elu": (nn.elu, elu), "relu": (nn.relu, lambda x: np.maximum(x, 0.)), "tanh": (jnp.tanh, np.tanh),
            "square": (af.square, lambda x: x * x), "poly5": (af.poly5, lambda x: x - 0.333333333 * x ** 3 + 0.133333333 * x ** 5), "poly6": (af.poly6, lambda x: 0.5 * x ** 2 - 0.083333333 * x ** 4 + 0.022222222 * x ** 6)}


def conv(x, k, b, strides, pads, periodic):
    """x: lattice + (cin,), k: F + (cin, cout); pads: [(before, after)] per lattice dimension"""
    import numpy as np
    d = x.ndim - 1
    F = k.shape[:d]
    shape = x.shape[:d]
    padded = [shape[j] + pads[j][0] + pads[j][1] for j in range(d)]
    outsh = [(padded[j] - F[j]) // strides[j] + 1 for j in range(d)]
    out = np.zeros(tuple(outsh) + (k.shape[-1],), dtype=np.result_type(x, k))
    for o in np.ndindex(*outsh):
        acc = 0.
        for f in np.ndindex(*F):
            pos = [o[j] * strides[j] + f[j] - pads[j][0] for j in range(d)]
            if periodic:
                v = x[tuple(p % shape[j] for j, p in enumerate(pos))]
            elif all(0 <= p < shape[j] for j, p in enumerate(pos)):
                v = x[tuple(pos)]
            else:
                continue
            acc = acc + v @ k[f]
        out[o] = acc + (b if b is not None else 0.)
    return out


def reference(kind, cfg, params, s):
    import numpy as np
    A = acts()
    L = layers_of(params)
    x = 2. * s - 1.
    if kind == "CpxRBM_Nospinflip":
        x = 1. * s
    if kind in ("RBM", "CpxRBM", "CpxRBM_Nospinflip"):
        (k, b), = L
        return np.sum(logcosh(x.ravel() @ k + (b if b is not None else 0.)))
    if kind == "FFN":
        fs = list(cfg["act"]) + [cfg["act"][-1]] * (len(cfg["layers"]) + 1 - len(cfg["act"]))
        x = x.ravel()
        for (k, b), f in zip(L, fs):
            x = A[f][1](x @ k + (b if b is not None else 0.))
        return np.sum(x)
    fs = list(cfg["act"]) + [cfg["act"][-1]] * (len(cfg["channels"]) - len(cfg["act"]))
    x = x[..., None]
    for (k, b), f in zip(L, fs):
        F = k.shape[:x.ndim - 1]
        if cfg["periodic"]:
            pads = [(0, q - 1) for q in F]
        elif kind == "CNN":
            pads = [(q - 1, q - 1) for q in F]
        else:
            pads = []
            for j, q in enumerate(F):      # same-size output
                n, st = x.shape[j], cfg["strides"][j]
                tot = max(((n + st - 1) // st - 1) * st + q - n, 0)
                pads.append((tot // 2, tot - tot // 2))
        x = A[f][1](conv(x, k, b, cfg["strides"], pads, cfg["periodic"]))
    return np.sum(x) / np.sqrt(x.size)


def run(ctx):
    import numpy as np
    import jax
    import jax.numpy as jnp
    import jVMC
    from lib import zoo
    n = jVMC.nets
    A = acts()
    D = ctx.dev

    def large(kind, rng, two):
        """sizes that are used in practice"""
        sh = (7, 9) if two else (int(rng.integers(40, 80)),)
        if kind in ("RBM", "CpxRBM", "CpxRBM_Nospinflip"):
            if kind == "RBM":
                sh = (int(np.prod(sh)),)
            return getattr(n, kind)(numHidden=int(rng.integers(15, 40)), bias=True), sh, {"bias": True, "first": True}
        if kind == "FFN":
            layers = tuple(int(x) for x in rng.integers(5, 20, size=int(rng.integers(3, 12))))
            return n.FFN(layers=layers, bias=True, actFun=(A["tanh"][0], A["elu"][0])), sh, {"layers": layers, "act": ["tanh", "elu"], "bias": True, "first": True}
        sh = (6, 5) if two else (30,)
        F = (3, 2) if two else (int(rng.integers(2, 9)),)
        ch = tuple(int(x) for x in rng.integers(3, 9, size=3 if two else int(rng.integers(3, 12))))
        a = ["poly6", "poly5"] if kind == "CpxCNN" else ["elu", "tanh"]
        if kind == "CpxCNN":
            ch = ch[:3]
        per = bool(rng.integers(3))
        cfg = {"F": F, "channels": ch, "strides": (1,) * len(sh), "act": a, "bias": True, "first": True, "periodic": per}
        return getattr(n, kind)(F=F, channels=ch, strides=(1,) * len(sh), actFun=tuple(A[x][0] for x in a), bias=True, firstLayerBias=True, periodicBoundary=per), sh, cfg

    def build(kind, rng, two):
        sh = (int(rng.integers(2, 4)), int(rng.integers(2, 4))) if two else (int(rng.integers(1, 7)),)
        bias = bool(rng.integers(2))
        if kind in ("RBM", "CpxRBM", "CpxRBM_Nospinflip"):
            if kind == "RBM":
                sh = (int(np.prod(sh)),)
            cls = getattr(n, kind)
            return cls(numHidden=int(rng.integers(1, 5)), bias=bias), sh, {"bias": bias, "first": bias}
        if kind == "FFN":
            layers = tuple(int(x) for x in rng.integers(1, 5, size=int(rng.integers(1, 4))))
            na = int(rng.integers(1, len(layers) + 2))
            a = [str(x) for x in rng.choice(["elu", "relu", "tanh", "square", "poly5", "poly6"], size=na)]
            return n.FFN(layers=layers, bias=bias, actFun=tuple(A[x][0] for x in a)), sh, {"layers": layers, "act": a, "bias": bias, "first": bias}
        per = bool(rng.integers(3))
        sh = (int(rng.integers(3, 5)), int(rng.integers(2, 4))) if two else (int(rng.integers(3, 7)),)
        F = tuple(int(rng.integers(1, min(5, q) + 1)) for q in sh)
        ch = tuple(int(x) for x in rng.integers(1, 4, size=int(rng.integers(1, 3 if two else 4))))
        st = tuple(int(rng.integers(2, 4)) if rng.integers(3) == 0 else 1 for _ in sh)
        if len(ch) > 1 and per and max(st) > 1:
            ch = ch[:2]
        na = int(rng.integers(1, len(ch) + 1))
        a = [str(x) for x in (rng.choice(["square", "poly5", "poly6"], size=na) if kind == "CpxCNN" else rng.choice(["elu", "relu", "tanh", "poly6"], size=na))]
        first = bool(rng.integers(2))
        cfg = {"F": F, "channels": ch, "strides": st, "act": a, "bias": bias, "first": first, "periodic": per}
        return getattr(n, kind)(F=F, channels=ch, strides=st, actFun=tuple(A[x][0] for x in a), bias=bias, firstLayerBias=first, periodicBoundary=per), sh, cfg

    kinds = ["RBM", "CpxRBM", "FFN", "CNN", "CpxCNN", "CpxRBM_Nospinflip", "CNN", "FFN", "CpxCNN"]
    for i, rng in ctx.cases("net", ctx.n(27, 126), cap=ctx.n(120, 600)):
        kind = kinds[i % 9]
        two = bool((i + i // 9) % 2)
        big = i >= 18 and kind != "CpxRBM_Nospinflip"
        net, shape, cfg = (large if big else build)(kind, rng, two)
        if big:
            ctx.count("large_networks")
        with ctx.case("net", i, (kind, shape, str(cfg)), desc={"net": kind, "shape": shape, "cfg": str(cfg)}):
            psi = jVMC.vqs.NQS(net, seed=int(rng.integers(1 << 30)), batchSize=int(rng.choice([1, 3, 100])))
            S = rng.integers(0, 2, size=(5 * D,) + shape).astype(np.int32)
            psi(jnp.array(S.reshape((D, 5) + shape)))
            leaves = jax.tree_util.tree_leaves(psi.parameters["params"])
            want = np.complex128 if kind.startswith("Cpx") else np.float64
            ctx.ok(all(l.dtype == want for l in leaves), "parameters are not double precision real/complex as documented", dtypes=[str(l.dtype) for l in leaves])
            L = layers_of(psi.parameters["params"])
            ctx.ok(all((b is not None) == (cfg["first"] if j == 0 else cfg["bias"]) for j, (k, b) in enumerate(L)), "presence of biases differs from the options", have=[b is not None for k, b in L], cfg=str(cfg))
            p0 = np.asarray(psi.get_parameters())
            # polynomials of polynomials explode for large parameters; their coefficients are decimal approximations of 1/3, 2/15, ...
            poly = any(a not in ("elu", "relu", "tanh") for a in cfg.get("act", []))
            psi.set_parameters(jnp.array((0.5 * p0 if poly else p0) + ((0.02 if poly else 0.1) if big else (0.15 if poly else 0.4)) * rng.normal(size=p0.shape)))
            acc = 1e-6 if any(a in ("poly5", "poly6") for a in cfg.get("act", [])) else 1e-9
            got = np.asarray(psi(jnp.array(S.reshape((D, 5) + shape)))).reshape(-1)
            ref = np.array([reference(kind, cfg, psi.parameters["params"], s) for s in S])
            # logarithms of complex amplitudes are defined up to 2 pi i
            sc = 1 + np.max(np.abs(ref))
            ctx.eq(np.real(got), np.real(ref), "network output differs from its definition", rtol=0, atol=acc * sc, cfg=str(cfg))
            if kind.startswith("CpxRBM"):
                ctx.eq(np.exp(1j * (np.imag(got) - np.imag(ref))), np.ones(len(S)), "phase of the network output differs from its definition", rtol=0, atol=1e-7)
            else:
                ctx.eq(np.imag(got), np.imag(ref), "imaginary part of the network output differs from its definition", rtol=0, atol=acc * sc)
            ctx.count(kind)
            if two:
                ctx.count("two_dimensional")
            if max(cfg.get("strides", (1,))) > 1:
                ctx.count("strided")
            if not cfg.get("periodic", True):
                ctx.count("open_boundary")
            # derivative by central differences of the reference
            if "relu" not in cfg.get("act", []) and "elu" not in cfg.get("act", []):
                g = np.asarray(psi.gradients(jnp.array(S.reshape((D, 5) + shape)))).reshape(len(S), -1)
                par = np.asarray(psi.get_parameters())
                for _ in range(2):
                    d = rng.normal(size=par.shape)
                    h = 1e-5
                    v = []
                    for sg in (1, -1):
                        psi.set_parameters(jnp.array(par + sg * h * d))
                        v.append(np.array([reference(kind, cfg, psi.parameters["params"], s) for s in S]))
                    psi.set_parameters(jnp.array(par))
                    dif = v[0] - v[1]
                    if kind.startswith("CpxRBM"):
                        dif = dif.real + 1j * np.angle(np.exp(1j * dif.imag))
                    fd = dif / (2 * h)
                    ctx.eq(g @ d, fd, "gradient differs from the derivative of the definition", rtol=1e-4, atol=1e-4, cfg=str(cfg))
                    ctx.count("gradients")

    for i, rng in ctx.cases("two", ctx.n(2, 15)):
        with ctx.case("two", i, i):
            shape = (int(rng.integers(2, 6)),)
            n1, _, c1 = n.RBM(numHidden=2, bias=True), 0, {}
            l2 = (3,)
            psi = jVMC.vqs.NQS((n1, n.FFN(layers=l2, bias=True, actFun=(jnp.tanh,))), seed=i)
            S = rng.integers(0, 2, size=(4 * D,) + shape).astype(np.int32)
            psi(jnp.array(S.reshape((D, 4) + shape)))
            p0 = np.asarray(psi.get_parameters())
            psi.set_parameters(jnp.array(p0 + 0.4 * rng.normal(size=p0.shape)))
            got = np.asarray(psi(jnp.array(S.reshape((D, 4) + shape)))).reshape(-1)
            tr = psi.parameters["params"]
            subs = [tr[k] for k in sorted(tr)]
            if len(subs) == 1:
                subs = [subs[0][k] for k in sorted(subs[0])]
            re = [reference("RBM", {}, subs[0], s) for s in S]
            im = [reference("FFN", {"layers": l2, "act": ["tanh"]}, subs[1], s) for s in S]
            ctx.eq(got, np.array(re) + 1j * np.array(im), "two-network ansatz is not log-amplitude plus i times phase", rtol=0, atol=1e-9)
            ctx.count("TwoNets")

    # the symmetric convolutional network is the mean of the plain one over the orbit
    for i, rng in ctx.cases("cnnsym", ctx.n(1, 6)):
        two = bool((i + len(ctx.key)) % 2) if hasattr(ctx, "key") else bool(rng.integers(2))
        shape = (2, 2) if two else (int(rng.integers(3, 6)),)
        with ctx.case("cnnsym", i, (shape, i), desc={"shape": shape}):
            sy = jVMC.util.symmetries
            orb = sy.get_orbit_2D_square(shape[0], "rotation", "reflection") if two else sy.get_orbit_1D(shape[0], "translation", "reflection", "spinflip")
            F = (2,) * len(shape)
            a = ["square"] if rng.integers(2) else ["square", "poly5"]
            cfg = {"F": F, "channels": (2, 2), "strides": (1,) * len(shape), "act": a, "periodic": True}
            psi = jVMC.vqs.NQS(n.CpxCNNSym(orbit=orb, F=F, channels=(2, 2), strides=(1,) * len(shape), actFun=tuple(A[x][0] for x in a), bias=True, firstLayerBias=bool(rng.integers(2))), seed=int(rng.integers(1 << 30)))
            S = rng.integers(0, 2, size=(4 * D,) + shape).astype(np.int32)
            psi(jnp.array(S.reshape((D, 4) + shape)))
            p0 = np.asarray(psi.get_parameters())
            psi.set_parameters(jnp.array(.5 * p0 + .2 * rng.normal(size=p0.shape)))
            got = np.asarray(psi(jnp.array(S.reshape((D, 4) + shape)))).reshape(-1)
            O = np.asarray(orb.orbit)
            ref = []
            for s in S:
                imgs = [np.rint((o @ (2 * s.ravel() - 1) + 1) / 2).astype(int).reshape(shape) for o in O]
                ref.append(np.mean([reference("CpxCNN", cfg, psi.parameters["params"], t) for t in imgs]))
            ctx.eq(got, np.array(ref), "symmetric convolutional network is not the mean over the orbit", rtol=0, atol=1e-6 * (1 + np.max(np.abs(ref))))
            ctx.count("CpxCNNSym")

    # activation functions, also for large and complex arguments
    from jVMC.nets import activation_functions as af
    for i, rng in ctx.cases("act", ctx.n(4, 20)):
        with ctx.case("act", i, i):
            x = rng.normal(size=40) * float(rng.choice([0.3, 1.]))
            for nm, f in af.activationFunctions.items():
                if nm in A:
                    ctx.eq(np.asarray(f(jnp.array(x))), A[nm][1](x), "activation function %s" % nm, rtol=1e-8, atol=1e-8)
                    ctx.count("activation_functions")
            ctx.ok(set(["square", "poly5", "poly6", "elu", "relu", "tanh"]) <= set(af.activationFunctions), "activation function missing", have=list(af.activationFunctions))
            big = np.concatenate([rng.normal(size=20) * 300, [700., -700., 1500., -1500., 0.]]) + 1j * rng.uniform(-3, 3, size=25)
            v = np.asarray(af.log_cosh(jnp.array(big)))
            ctx.ok(np.all(np.isfinite(v)), "log cosh overflows", x=big[~np.isfinite(v)])
            ref = logcosh(big)
            ctx.eq(v.real, ref.real, "log cosh", rtol=1e-10, atol=1e-10)
            ctx.eq(np.exp(1j * (v.imag - ref.imag)), np.ones(25), "phase of log cosh", rtol=0, atol=1e-9)
            ctx.eq(np.asarray(af.log_cosh(jnp.array(x))), np.log(np.cosh(x)), "log cosh of real arguments", rtol=1e-9, atol=1e-12)
            ctx.count("large_arguments", 25)
