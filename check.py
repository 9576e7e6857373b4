#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE]: decides one property (see DESIGN.md)."""
import os
import sys

VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def setup():
    """Nothing is built ahead: show that the tools and the code are there."""
    import subprocess
    from harness import common
    print("jsgf from", os.path.dirname(common.jsgf.__file__))
    return subprocess.call(["java", "-version"])


def main():
    if os.path.exists(VENV) and not os.environ.get("VERIF_REEXEC"):
        # No .pyc is read or written, so that a stale one cannot hide an edit.
        os.environ.update(VERIF_REEXEC="1", PYTHONHASHSEED="0", PYTHONUTF8="1",
                          PYTHONPYCACHEPREFIX="/nonexistent/pycache")
        os.execv(VENV, [VENV, "-B", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    args = sys.argv[1:]
    if args == ["--setup"]:
        return setup()
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i:i + 2]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from harness import engine, registry
    parts, models = registry.lookup(pid)
    try:
        return engine.run_check(pid, parts, models, tier, seed, replay)
    except engine.MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
