#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json, sys
sys.path.insert(0, "/verif")
sys.dont_write_bytecode = True
from vlib import props
T = {
 "C01": ("TLA+ controller model (TLC exhaustive) + TLC trace validation of real runs", "Controller.tla"),
 "C02": ("TLA+ timed controller model + TLC trace validation of virtual-time runs", "Controller.tla"),
 "C03": ("TLA+ timed controller model + TLC trace validation of virtual-time runs", "Controller.tla"),
 "C04": ("TLA+ controller model + TLC trace validation of real runs", "Controller.tla"),
 "C05": ("TLA+ timed controller model + TLC trace validation of real runs", "Controller.tla"),
 "C06": ("TLA+ controller model + TLC trace validation of real runs", "Controller.tla"),
 "C07": ("TLA+ controller model + TLC trace validation of virtual-time runs", "Controller.tla"),
 "C08": ("TLA+ goroutine/channel model (TLC exhaustive), its histories replayed, TLC trace validation of real runs", "Runtime.tla and spec/Node.tla"),
 "C09": ("TLA+ announcement model (TLC exhaustive) replayed into and recorded from the code", "Announce.tla"),
 "C10": ("TLA+ goroutine/channel model (TLC exhaustive), its histories replayed, TLC trace validation of real runs", "Runtime.tla and spec/Node.tla"),
 "C11": ("TLA+ goroutine/channel model with faults, its histories replayed, TLC trace validation under injected faults", "Runtime.tla, Controller.tla and Node.tla"),
 "C12": ("TLA+ goroutine/channel shutdown model (TLC, liveness), its histories replayed, TLC trace validation", "Runtime.tla and spec/Node.tla"),
 "C13": ("TLA+ life-cycle model, generated call sequences replayed, TLC trace validation", "Lifecycle.tla"),
 "C14": ("TLA+ wire format model, recorded parse results evaluated by TLC", "Wire.tla"),
 "C15": ("TLA+ wire format model, recorded marshal results evaluated by TLC", "Wire.tla"),
 "C16": ("TLA+ wire format model, recorded operation histories evaluated by TLC", "Wire.tla"),
 "C17": ("TLA+ register machine (TLC exhaustive), full transition tables of the code evaluated by TLC", "Registers.tla"),
 "C18": ("TLA+ linearizability monitor over concurrent histories (TLC), race detector as observer", "Atomic.tla"),
 "C19": ("TLA+ announcement model (TLC exhaustive) replayed into and recorded from the code", "Announce.tla"),
 "C20": ("TLA+ options/life-cycle model, generated option sequences replayed, TLC trace validation", "Lifecycle.tla"),
 "C21": ("TLA+ network model (TLC exhaustive), generated host histories replayed into several real hosts, TLC trace validation", "Network.tla"),
}
checks, na = [], []
for pid in sorted(T):
    if pid in props.CHECKS:
        checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} quick", "thorough_cmd": f"python3 check.py {pid} thorough",
          "evidence_file": f"evidence/{pid}.json", "technique": T[pid][0], "level": "model_checking",
          "level_note": f"spec/{T[pid][1]} is (are) model-checked within the bounds given in DESIGN.md; the code is bound to it by conformance of real executions (generated and seeded inputs, virtual clock, in-memory UDP), so the code is covered on the executions explored, not proved."})
    else:
        na.append({"property": pid, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
  "notes": "TLA+/TLC.  No hooks in /repo: the code is driven through its public API; package net's UDP sockets are replaced by an in-memory network with go build -overlay (harness/overlay/gen.py)."},
  open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
