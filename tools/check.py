#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: rebuilds the simulator of PROP against /repo's working tree, runs the check (default tier:
VERIF_TIER).
check.py replay FILE: rebuilds and replays a violation file.  check.py build: builds everything (setup)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

EXE = {
    "C01": "problem", "C02": "problem", "C03": "problem", "C04": "problem", "C05": "problem", "C06": "problem",
    "C07": "graph", "C08": "events", "C09": "events", "C10": "threads", "C11": "loop", "C12": "loop",
    "C13": "vars", "C14": "vars", "C15": "problem", "C16": "problem", "C17": "problem", "C18": "graph",
    "C22": "function",
}


def main():
    what = sys.argv[1]
    if what == "build":
        return build.main([])
    if what == "replay":
        prop = [l.split()[1] for l in open(sys.argv[2]) if l.startswith("property ")][0]
        args = ["replay", os.path.abspath(sys.argv[2])] + sys.argv[3:]
    else:
        prop, args = what, ["check", what]
        if len(sys.argv) > 2:
            os.environ["VERIF_TIER"] = sys.argv[2]
    exe = EXE[prop]
    if build.main([exe]) != 0:
        return 2
    os.environ.setdefault("SIM_ROOT", build.VERIF)
    os.environ.setdefault("SIM_OUT", os.path.join(build.VERIF, "out"))
    os.makedirs(os.environ["SIM_OUT"], exist_ok=True)
    path = os.path.join(build.BUILD, exe)
    sys.stdout.flush()
    os.execv(path, [path] + args)


if __name__ == "__main__":
    sys.exit(main())
