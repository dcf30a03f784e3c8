"""One shard (and one MPI rank of it): set the device layout, import jVMC from /repo, run the monitors."""
import importlib
import json
import os
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")


def main():
    a = json.loads(sys.argv[1])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.path.insert(0, os.path.join(here, "lib"))
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    import vf
    mod = importlib.import_module("checks." + a["module"])
    spec = a["spec"]
    only = a.get("only")
    ctx = vf.Ctx(a["prop"], a["shard"], spec, a["seed"], a["tier"], a["outdir"], only)
    try:
        import jVMC
        assert os.path.realpath(jVMC.__file__).startswith(os.path.realpath(repo) + os.sep), jVMC.__file__
        if spec.get("ranks", 1) > 1 or spec.get("mpi"):
            ctx.setup_mpi()
        import jax
        assert len(jax.devices()) == spec.get("dev", 1), (jax.devices(), spec)
        getattr(mod, spec["fn"])(ctx)
    except Exception as e:
        txt = traceback.format_exc()
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        lib = os.path.join(os.path.realpath(repo), "jVMC") + os.sep
        if any(os.path.realpath(f).startswith(lib) for f in frames) and "jVMC" in sys.modules and not isinstance(e, MemoryError) and "RESOURCE_EXHAUSTED" not in txt:
            ctx.violation("unexpected exception %s in the library: %s" % (type(e).__name__, str(e)[:200]), traceback=txt[-3500:])
        else:
            ctx.errors.append(txt[-4000:])
        ctx.write()
        if ctx.size > 1:
            ctx.comm.Abort(4)
        sys.exit(4)
    ctx.write()
    sys.stdout.flush()
    sys.stderr.flush()
    if ctx.size > 1:
        ctx.comm.Barrier()


if __name__ == "__main__":
    main()
