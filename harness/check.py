#!/opt/venv/bin/python
"""python check.py <PROPERTY-ID>: run the check of one property."""
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("LANG", "C.UTF-8")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import importlib
    import tempfile

    pid = sys.argv[1]
    # work in a scratch directory: naima writes files relative to the cwd
    work = tempfile.mkdtemp(prefix="vwork_")
    os.environ["HOME"] = work          # caches of libraries stay in scratch
    os.environ["MPLCONFIGDIR"] = work
    os.environ["XDG_CACHE_HOME"] = work
    os.environ["XDG_CONFIG_HOME"] = work
    os.environ["ASTROPY_SKIP_CONFIG_UPDATE"] = "True"
    os.chdir(work)
    import vlib

    try:
        ck = vlib.Check(pid)
        mod = importlib.import_module(pid.lower())
        try:
            mod.run(ck)
        except vlib.TLCError:
            raise
        except Exception as e:
            # an exception that naima raised where the driver's contract
            # allows none, or that the driver met when it read what naima
            # produced, is an observation, not a machinery failure
            where = vlib.naima_frame(e)
            if where is None and vlib.reading_failed(e):
                where = "driver:" + type(e).__name__
            if where is None:
                raise
            import traceback

            ck.bad.append(dict(clause="unexpected_exception", key=where,
                               spec="driver", event=None, history=None,
                               detail=traceback.format_exc()[-1500:]))
        return ck.finish()
    finally:
        import shutil

        os.chdir("/")
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc if isinstance(rc, int) else 2)
