#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current source."""
import importlib
import os
import subprocess
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import core  # noqa: E402
import fw  # noqa: E402


def main():
    pid = sys.argv[1]
    if not os.path.exists(fw.ABSINT):
        subprocess.run(["bash", os.path.join(HERE, "setup.sh")], check=True, stdout=subprocess.DEVNULL)
    mod = importlib.import_module(pid.lower())
    with fw.workdir() as w:
        ctx = None
        try:
            ctx = core.Ctx(pid, w)
            mod.run(ctx)
            rc = core.finish(ctx, mod.SPEC)
        except Exception as e:
            if not isinstance(e, fw.AnalysisError):
                traceback.print_exc()
            print("ANALYSIS-ERROR property=%s: %s" % (pid, e))
            rc = 3
            if ctx is not None and ctx.violations:  # what was found before the analysis stopped stands
                rc = core.finish(ctx, mod.SPEC) or 3
    sys.stdout.flush()
    os._exit(rc)


main()
