#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's tree."""
import json, os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core, props


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = core.Ctx(pid, tier, seed)
    rd = os.path.join(core.OUT, "evidence", "replay-" + pid)
    shutil.rmtree(rd, ignore_errors=True)
    try:
        props.CHECKS[pid](ctx)
    except core.Violation as v:
        os.makedirs(rd, exist_ok=True)
        open(os.path.join(rd, "violation.txt"), "w").write(v.what + "\n")
        for f in v.files:
            if os.path.exists(f):
                shutil.copy(f, rd)
        ctx.evidence(1)
        print(v.what[:4000])
        print(f"VIOLATION property={pid} replay={rd}")
        return 1
    except core.Broken as b:
        print("BROKEN CHECK:", b)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    ctx.evidence(0)
    print(f"OK property={pid} tier={tier} seed={seed} states={ctx.states} traces={ctx.traces} events={ctx.events}")
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(ctx.work, ignore_errors=True)
    return 0


sys.exit(main())
