#!/usr/bin/env python3
"""check.py PXX [--tier quick|thorough]: decides one property from /repo's current source."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analyzer"))
sys.dont_write_bytecode = True
import threading


def main():
    import importlib
    import facts, core
    from report import Report
    from judges.table import JUDGES
    a = sys.argv[1:]
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    prop = [x for x in a if not x.startswith("-")][0]
    rep = Report(prop, tier)
    mod, fn = JUDGES[prop]
    try:
        getattr(importlib.import_module("judges." + mod), fn)(rep)
    except core.Anchor as e:
        rep.bad("missing anchor", str(e))
    except core.Abort as e:
        rep.bad("not analysable", str(e))
    except facts.BuildError as e:
        rep.bad("does not build", f"{e}: {e.text[-600:]}")
    except Exception:
        import traceback
        traceback.print_exc()
        rep.bad("not analysable", "internal error of the analysis: " + traceback.format_exc()[-600:])
    return rep.finish()


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        import facts
        facts.ensure_driver()
        facts.sysroot()
        sys.exit(0)
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
