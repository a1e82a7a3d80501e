#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's current tree
   check.py --replay <file>               run a reported history again
   check.py --build                       build everything the checks use"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, props  # noqa: E402


def main(a):
    if a[:1] == ["--build"]:
        core.build(props.TARGETS)
        return 0
    if a[:1] == ["--replay"]:
        d = json.load(open(a[1]))
        chk = core.Check(d["property"], "quick", 0)
        chk.traces("replay", d["harness"], d["module"], set(d["enforce"]), [("replay", d["script"])], "replay", confirm=False)
        return chk.finish()
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    chk = core.Check(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        props.run(chk)
    except Exception as e:   # no answer, unless a violation was found before
        if not isinstance(e, core.ToolError):
            traceback.print_exc()
        if not chk.violations:
            print(f"ERROR {pid}: {e}", file=sys.stderr)
            return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
