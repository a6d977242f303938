"""entry point of every conformance driver: main.py <driver module> <property> <work dir>"""
import importlib, json, os, sys, traceback
import vt

def run():
    mod, prop, work = sys.argv[1:4]
    rec = vt.Recorder(work)
    try:
        m = importlib.import_module(mod)
        m.drive(prop, rec)
    except BaseException as e:      # noqa
        tb = traceback.extract_tb(e.__traceback__)
        rec.close()
        repo = os.path.realpath(os.environ["VERIF_REPO"]) + os.sep
        own = isinstance(e, AttributeError) and not str(e.name).startswith("_") and \
            os.path.realpath(getattr(sys.modules.get(type(e.obj).__module__), "__file__", None) or "/").startswith(repo)
        if own or isinstance(e, vt.Hung) or any(os.path.realpath(f.filename).startswith(repo) for f in tb):
            rec.stats["crash_in_repo"] = "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + \
                "; ".join(f"{f.filename}:{f.lineno}" for f in tb[-3:])
        rec.write_stats()
        traceback.print_exc()
        sys.exit(3)
    rec.close()
    rec.write_stats()

run()
