#!/usr/bin/env python3
"""python3 /verif/run.py <property id> [--thorough] | --setup"""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/lib")
import vt


def main():
    if sys.argv[1] == "--setup":
        vt.build("release")
        vt.build("shipped")
        return 0
    import checks
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = vt.Check(pid, tier, seed)
    try:
        return checks.CHECKS[pid](c)
    finally:
        import shutil
        shutil.rmtree(c.work, ignore_errors=True)


try:
    sys.exit(main())
except SystemExit:
    raise
except vt.ToolError as e:
    print("TOOL ERROR:", e, file=sys.stderr)
    sys.exit(2)
except Exception:
    traceback.print_exc()
    sys.exit(2)
