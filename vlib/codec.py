"""C14-C16 (wire format), C17 (registers), C09 and C19 (announcements)."""
import json, os
from .core import Violation, Broken, count_lines, line, lib_panic, tail


def record(ctx, shard, test, env):
    out = ctx.path(f"t{shard}.ndjson")
    rc, log = ctx.harness(test, dict(env, VH_OUT=out), ctx.path(f"t{shard}.log"))
    if rc != 0:
        p = lib_panic(log)
        if p:
            raise Violation("the library crashed: " + p, [ctx.path(f"t{shard}.log")])
        raise Broken(f"harness {test} rc={rc}: {tail(log)}")
    return out


def judge(ctx, shard, module, out, consts, spec="Spec"):
    bad = ctx.validate(module, out, f"{module}-{shard}", consts, spec)
    n = count_lines(out)
    if bad:
        ev = line(out, bad["line"])
        f = ctx.path("event.json")
        open(f, "w").write(ev + "\n")
        raise Violation(f"{bad['fails']}\nevent {bad['line']}: {ev[:1500]}", [f])
    ctx.traces += n - 1
    ctx.events += n
    s = json.loads(line(out, 1 + (n // 2)))
    ctx.sample({k: (v if len(str(v)) < 200 else str(v)[:200]) for k, v in s.items()})


WIREMC = """SPECIFICATION Spec
INVARIANT Sizes WellFormed RoundTrip Stable CutRefused PadIgnored HitSeen
CHECK_DEADLOCK FALSE
CONSTANT Patterns = {"zero", "ones", "count"}
CONSTANT BadBytes = {%s}
"""


def codec(what, sizes):
    def check(ctx):
        ctx.model("WireMC", WIREMC % ", ".join(str(i) for i in range(24 if ctx.quick else 110)))
        ctx.build()
        n, shards = sizes[0 if ctx.quick else 1]

        def shard(i):
            w = what.split(",")
            if "sweep" in w and i > 0 and ctx.quick:
                w.remove("sweep")
            env = {"VH_WHAT": ",".join(w), "VH_N": n, "VH_SEED": ctx.seed * 1000 + i, "VH_SHARD": i, "VH_SHARDS": shards}
            if not ctx.quick and i == 0:
                env["VH_FULL"] = 1
            out = record(ctx, i, "TestCodec", env)
            judge(ctx, i, "CodecTrace", out, {"Property": f'"{ctx.pid}"'})
        ctx.parallel(shard, range(shards))
    return check


def c17(ctx):
    ctx.model("Registers", "SPECIFICATION Spec\nINVARIANT TypeOK SetGet\nPROPERTY Frame\nCHECK_DEADLOCK FALSE\n")
    out = record(ctx, 0, "TestRegisters", {})
    judge(ctx, 0, "RegTrace", out, {}, "TSpec")
    ctx.notes["exhaustive"] = True


MC = """SPECIFICATION Spec
INVARIANT Faithful Announced RefusedRight
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANT MaxPorts = 5
CONSTANT Protos = {0, 1, 2, 3, 4, 5}
CONSTANT Unis = {%s}
CONSTANT Bases = {0, 1312}
"""


def ann(what, sizes):
    def check(ctx):
        cases = ctx.path("cases.ndjson")
        ctx.model("AnnounceMC", MC % ("0" if ctx.quick else "0, 5, 13"), env={"CASES": cases})
        n, shards = sizes[0 if ctx.quick else 1]
        L = open(cases).readlines()
        ctx.build()

        def shard(i):
            c = ctx.path(f"cases{i}.ndjson")
            open(c, "w").writelines(L[i::shards])
            out = record(ctx, i, "TestAnnounce", {"VH_WHAT": what, "VH_N": n, "VH_CASES": c, "VH_SEED": ctx.seed * 1000 + i})
            judge(ctx, i, "AnnTrace", out, {"Property": f'"{ctx.pid}"'})
        ctx.parallel(shard, range(shards))
    return check


CHECKS = {
    "C09": ann("", [(150, 8), (3000, 16)]),
    "C14": codec("sweep,words,parse", [(60, 6), (800, 24)]),
    "C15": codec("marshal", [(150, 6), (1500, 16)]),
    "C16": codec("history", [(300, 6), (3000, 16)]),
    "C17": c17,
    "C19": ann("", [(150, 8), (3000, 16)]),
}
