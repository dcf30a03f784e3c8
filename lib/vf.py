"""Shared monitor framework: one Ctx per (shard, rank) process.

A check module (checks/cNN.py) provides
    SHARDS(tier) -> list of dicts  {"dev": devices per process, "ranks": MPI processes, "fn": name, ...}
    and the functions named there, each taking a Ctx.
Everything a monitor decides goes through Ctx.case / Ctx.eq / Ctx.ok, which count what was observed.
"""
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np


def h64(*parts):
    return int.from_bytes(hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()[:8], "little")


class CaseAbort(Exception):
    """A monitor already recorded a violation and the rest of the case cannot go on."""


class Ctx:
    MAXV = 12

    def __init__(self, prop, shard, spec, seed, tier, outdir, only=None):
        self.prop, self.shard, self.spec = prop, shard, spec
        self.seed, self.tier, self.outdir, self.only = seed, tier, outdir, only
        self.rank, self.size, self.dev = 0, 1, spec.get("dev", 1)
        self.evaluations = 0
        self.checks = 0
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.errors = []
        self.counters = {}
        self.cur = None
        self.t0 = time.time()
        self.comm = None
        self.kf = []
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("status") == "known" and d.get("property") == prop:
                        self.kf.append(d)

    thorough = property(lambda self: self.tier == "thorough")

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def setup_mpi(self):
        from mpi4py import MPI
        self.comm = MPI.COMM_WORLD
        self.rank, self.size = self.comm.Get_rank(), self.comm.Get_size()

    # ---------------------------------------------------------------- cases
    def rng(self, *key, per_rank=False):
        k = h64(self.prop, self.seed, self.spec.get("key", self.shard), *key, self.rank if per_rank else "")
        return np.random.Generator(np.random.PCG64(k))

    def cases(self, name, count, cap=None):
        """Yields (index, rng). ``cap``: soft wall limit in seconds, agreed on by all ranks."""
        t0 = time.time()
        for i in range(count):
            if self.only is not None and (self.only[0] != name or self.only[1] != i):
                continue
            if cap is not None and i >= 1:
                stop = (time.time() - t0) > cap
                if self.size > 1:
                    stop = self.comm.bcast(stop, root=0)
                if stop:
                    self.count("capped:" + name)
                    break
            yield i, self.rng(name, i)

    def case(self, name, index, sig, nontrivial=True, desc=None):
        return _Case(self, name, index, sig, nontrivial, desc)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + int(n)

    # ---------------------------------------------------------------- oracles
    def violation(self, what, **witness):
        d = {"what": what, "shard": self.shard, "spec": self.spec, "rank": self.rank,
             "case": self.cur, "witness": {k: show(v) for k, v in witness.items()}}
        for k in self.kf:
            if k["match"] in what:
                self.known[k["id"]] = self.known.get(k["id"], 0) + 1
                return
        if len(self.violations) < self.MAXV:
            self.violations.append(d)
            if self.size > 1:
                self.write()      # a broken collective may leave the other ranks hanging
            print("[monitor] %s: %s  case=%s" % (self.prop, what, self.cur), file=sys.stderr)
            for k, v in d["witness"].items():
                print("          %s = %s" % (k, str(v)[:600]), file=sys.stderr)

    def ok(self, cond, what, **witness):
        self.checks += 1
        if not bool(cond):
            self.violation(what, **witness)
            return False
        return True

    def need(self, cond, what, **witness):
        if not self.ok(cond, what, **witness):
            raise CaseAbort(what)

    def eq(self, got, want, what, rtol=1e-8, atol=1e-9, **witness):
        """got == want up to rounding; a NaN, a wrong shape or a wrong count is a violation."""
        self.checks += 1
        try:
            g, w = np.asarray(got), np.asarray(want)
        except Exception as e:
            self.violation(what + " (not an array)", error=repr(e), **witness)
            return False
        if g.shape != w.shape:
            self.violation(what + " (shape)", got_shape=g.shape, want_shape=w.shape, got=g, want=w, **witness)
            return False
        if g.size == 0:
            return True
        scale = np.max(np.abs(w)) if w.size else 0.
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
        bad = ~(err <= atol + rtol * scale)
        if np.any(bad):
            i = tuple(int(x) for x in np.argwhere(bad)[0]) if g.ndim else ()
            self.violation(what, first_bad_index=i, got_there=g[i], want_there=w[i],
                           n_bad=int(np.sum(bad)), of=int(g.size),
                           max_err=float(np.nanmax(np.where(np.isnan(err), np.inf, err))), got=g, want=w, **witness)
            return False
        return True

    def same(self, got, want, what, **witness):
        self.checks += 1
        if got != want:
            self.violation(what, got=got, want=want, **witness)
            return False
        return True

    def raises(self, exc, fn, what, **witness):
        self.checks += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.violation(what + " (other exception)", error=repr(e), **witness)
            return False
        self.violation(what + " (no exception)", **witness)
        return False

    # ---------------------------------------------------------------- result
    def result(self):
        return {"shard": self.shard, "spec": self.spec, "rank": self.rank, "evaluations": self.evaluations,
                "checks": self.checks, "sigs": sorted(self.sigs), "samples": self.samples[:4],
                "violations": self.violations, "known": self.known, "errors": self.errors,
                "counters": self.counters, "wall_s": time.time() - self.t0}

    def write(self):
        p = os.path.join(self.outdir, "s%d_r%d.json" % (self.shard, self.rank))
        with open(p + ".tmp", "w") as f:
            json.dump(self.result(), f, default=str)
        os.replace(p + ".tmp", p)


class _Case:
    def __init__(self, ctx, name, index, sig, nontrivial, desc):
        self.ctx, self.name, self.index, self.sig, self.nt, self.desc = ctx, name, index, sig, nontrivial, desc

    def __enter__(self):
        c = self.ctx
        c.cur = {"name": self.name, "index": self.index, "sig": str(self.sig)}
        if self.desc is not None:
            c.cur["desc"] = show(self.desc)
        with open(os.path.join(c.outdir, "s%d_r%d.hb" % (c.shard, c.rank)), "w") as f:
            json.dump({"t": time.time(), "case": c.cur}, f, default=str)
        self.v0 = len(c.violations)
        self.k0 = c.checks
        return self

    def __exit__(self, et, ev, tb):
        c = self.ctx
        c.evaluations += 1
        if et is not None and issubclass(et, Exception) and et is not CaseAbort:
            txt = "".join(traceback.format_exception(et, ev, tb))
            if issubclass(et, (MemoryError, BrokenPipeError)) or "RESOURCE_EXHAUSTED" in txt or "No space left" in txt:
                c.errors.append(txt[-3000:])
            else:
                c.violation("unexpected exception %s: %s" % (et.__name__, str(ev)[:200]), traceback=txt[-3500:])
            if c.size > 1:
                c.write()
                c.comm.Abort(3)
        if et is not None and not issubclass(et, Exception):
            return False
        if c.checks > self.k0:
            if self.nt:
                c.sigs.add(hashlib.sha1(str(self.sig).encode()).hexdigest()[:16])
            if len(c.samples) < 4:
                c.samples.append({"case": c.cur, "oracle_comparisons": c.checks - self.k0})
        c.cur = None
        return True


def show(v, limit=40):
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    if isinstance(v, complex):
        return str(v)
    if isinstance(v, dict):
        return {str(k): show(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [show(x) for x in list(v)[:limit]]
    try:
        a = np.asarray(v)
        if a.dtype == object:
            return repr(v)[:800]
        if a.size > limit:
            return "%s%s first: %s" % (a.dtype, a.shape, np.array2string(a.ravel()[:limit], precision=12))
        return "%s%s %s" % (a.dtype, a.shape, np.array2string(a, precision=12))
    except Exception:
        return repr(v)[:800]
