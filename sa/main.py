"""check ID [quick|thorough]: decides one property on the current tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(40000)
import threading  # noqa: E402

threading.stack_size(512 * 1024 * 1024)
MODULES = ("checks_text", "checks_location", "checks_error", "checks_version", "checks_overload", "checks_semantic", "checks_syntactic",
           "checks_api", "checks_structure", "checks_python")


def find(prop):
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name == m:
                continue
            raise
        fn = getattr(mod, prop.lower(), None)
        if fn:
            return fn
    return None


def main(prop, tier):
    import front
    from harness import Broken, Check, Violated
    fn = find(prop)
    if fn is None:
        print("no check for %s" % prop)
        return 2
    C = Check(prop, tier)
    try:
        level, expl = fn(C)
        return C.finish(level, expl)
    except Violated as e:
        C.fail(next(iter(C.rules)), e.site, e.where, e.detail)
        return C.finish("other", "The library cannot even be set up.")
    except (Broken, front.FrontError) as e:
        if C.unlisted():
            return C.finish("other", "incomplete: %s" % e)
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        if C.unlisted():
            return C.finish("other", "incomplete: internal error")
        print("ANALYSIS-BROKEN property=%s: internal error" % prop)
        return 2


if __name__ == "__main__":
    rc = [2]

    def go():
        rc[0] = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
