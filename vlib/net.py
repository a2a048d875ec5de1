"""C21: several real nodes and controllers on one network (TestNet), judged by NetTrace.tla; Network.tla model-checked."""
import json, os, random, re
from .core import Violation, Broken, count_lines, line, lib_panic, tail
from . import nodes, world

MC = """SPECIFICATION Spec
INVARIANT TypeOK Finds Forgets Arrives Keeps Right
CHECK_DEADLOCK FALSE
CONSTANT Ctrls = {%s}
CONSTANT Nodes = {%s}
CONSTANT Ports <- %s
CONSTANT Frames = {%s}
CONSTANT D = %d
CONSTANT Force = 2
CONSTANT PollEvery = 2
CONSTANT StaleAfter = %d
CONSTANT CtrlsStop = %s
"""
MODELS = {
    "ports": ('"c"', "1", "P2", "", 1, 4, "TRUE"),
    "dmx": ('"c"', "1", "P1", "1, 2", 1, 4, "FALSE"),
    "slow": ('"c"', "1", "P2", "", 2, 7, "TRUE"),
    "ctrls": ('"c", "d"', "1", "P1", "", 1, 4, "FALSE"),
    "nodes": ('"c"', "1, 2", "P1", "", 1, 4, "FALSE"),
}


def nmodel(ctx, which):
    ctx.model("NetworkMC", MC % MODELS[which], "NetworkMC-" + which, workers=4, heap="8g")


GEN = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Ctrls = {%s}
CONSTANT Nodes = {%s}
CONSTANT Configs = 3
CONSTANT Steps = %d
CONSTANT Gaps = {%s}
CONSTANT Horizon = %d
"""
GAPS = [0, 1, 3, 20, 26, 40, 120, 251, 500, 1000, 2000]


def behaviours(ctx, ctrls, nds, steps, horizon, num):
    f = ctx.path(f"net-{ctrls}-{nds}.beh")
    R = lambda a, n: ", ".join(str(a + i) for i in range(n))
    rc, out = ctx.tlc("NetworkGen", GEN % (R(1, ctrls), R(ctrls + 1, nds), steps, ", ".join(map(str, GAPS)), horizon), f"netgen-{ctrls}-{nds}", 1, 300,
                      ("-simulate", f"num={num}", "-depth", str(steps + 5), "-seed", str(ctx.seed * 131 + 7)), {"BEHAVIOURS": f})
    if rc != 0 or not os.path.exists(f):
        raise Broken("generator failed: " + tail(out))
    res = []
    for l in open(f):
        if l.strip() and (b := json.loads(l)) not in res:
            res.append(b)
    ctx.notes.setdefault("generated_behaviours", {})[f"{ctrls} controllers, {nds} nodes"] = len(res)
    return res[:num]


def script(rng, i, beh, ctrls, nds):
    ips = []
    base = rng.choice([[2, 0, 0, 1], [10, 0, 0, 1], [192, 168, 1, 16]])
    while len(ips) < ctrls + nds:
        x = list(base)
        x[rng.choice([1, 2, 3, 3, 3])] ^= 1 << rng.randrange(8)
        if x not in ips and x != [2, 255, 255, 255]:
            ips.append(x)
    d = rng.choice([0, 0, 0, 300, 20000, 250000, 900000])
    fps = [rng.choice([1000, 200, 44, 25, 10, 3]) for _ in range(ctrls)]
    hosts = [dict(kind="ctrl", ip=ips[k], fps=fps[k], name=f"c{k}") for k in range(ctrls)] + \
            [dict(kind="node", ip=ips[ctrls + k], fps=0, name=f"n{k}") for k in range(nds)]
    # each node has its own Sub-Net (often the same universes within it): addresses are never shared
    subs = rng.sample(range(2048), nds) if rng.random() < .5 else rng.sample([0, 1, 2, 16, 17, 32, 256, 257, 2047], nds)
    cfgs = {}
    for k in range(nds):
        ours = []
        for q in range(3):
            c = nodes.cfg(rng, ips[ctrls + k])
            b = subs[k] << 4
            c.update(base=b, port=0)
            few = rng.choice([2, 3, 16])
            for p in c["inputs"] + c["outputs"]:
                p["addr"] = b | (p["addr"] % few)
            if not c["outputs"] and rng.random() < .7:
                t = c["inputs"][0]["type"] & 0x3f if c["inputs"] else 0
                c["outputs"] = [dict(addr=b | rng.randrange(few), type=0x80 | t, status=0)]
            ours.append(c)
        if rng.random() < .3:
            ours[1] = ours[0]
        cfgs[ctrls + k + 1] = ours
    ops, fr, up = [], 0, set()
    off = 137

    def start(t, h, q):
        o = dict(at=t, op="start", h=h, fresh=rng.random() < .3)
        if h > ctrls:
            o["cfg"] = cfgs[h][q - 1]
        ops.append(o)
        up.add(h)
        cur[h] = q
    cur = {}
    for e in beh["log"]:
        t = e["at"] * 1000 + off
        h, k = e["h"], e["k"]
        if k == "start" and h not in up:
            start(t, h, max(e["cfg"], 1))
        elif k == "stop" and h in up:
            ops.append(dict(at=t, op="stop", h=h))
            up.discard(h)
        elif k == "restart" and h in up:
            ops.append(dict(at=t, op="stop", h=h))
            start(t + rng.choice([0, 1, 5000]), h, max(e["cfg"], 1))
        elif k == "write" and h in up:
            for _ in range(rng.choice([1, 1, 2, 4])):
                n = e["n"]
                q = cfgs[n][cur.get(n, e["cfg"]) - 1 if rng.random() < .9 else e["cfg"] - 1]
                a = rng.choice(q["outputs"] or q["inputs"] or [dict(addr=q["base"])])["addr"]
                if rng.random() < .1:
                    a = world.near(rng, a)
                fr += 1
                ops.append(dict(at=t, op="write", h=h, a=a, frame=fr))
                if rng.random() < .3:
                    e = dict(e, n=rng.randrange(ctrls + 1, ctrls + nds + 1))
            if rng.random() < .12:      # all at once
                for a in sorted({p["addr"] for n in cfgs for p in cfgs[n][cur.get(n, 1) - 1]["outputs"]}):
                    fr += 1
                    ops.append(dict(at=t, op="write", h=h, a=a, frame=fr))
        if rng.random() < .25:
            for c in range(1, ctrls + 1):
                if c in up:
                    ops.append(dict(at=t + rng.choice([1, 700, 100000]), op="snap", h=c))
    end = beh["end"] * 1000
    for t in range(1000000, end, 1000000):
        c = rng.randrange(1, ctrls + 1)
        ops.append(dict(at=t + 500311, op="snap", h=c))
    fin = end + rng.choice([4000000, 11000000])
    for c in range(1, ctrls + 1):
        ops.append(dict(at=fin, op="snap", h=c))
    ops.sort(key=lambda o: o["at"])
    # snapshots only of controllers that exist; lives in order
    out, live, made = [], set(), set()
    for o in ops:
        if o["op"] == "start":
            if o["h"] in live:
                continue
            live.add(o["h"])
            made.add(o["h"])
        elif o["op"] == "stop":
            if o["h"] not in live:
                continue
            live.discard(o["h"])
        elif o["h"] not in live:
            continue
        out.append(o)
    return dict(id=f"n{i}", d=d, hosts=hosts, ops=out)


def play(ctx, name, scripts):
    sp = ctx.path(f"{name}.scripts")
    open(sp, "w").write("".join(json.dumps(s) + "\n" for s in scripts))
    out, logf = ctx.path(f"{name}.ndjson"), ctx.path(f"{name}.log")
    rc, log = ctx.harness("TestNet", dict(VH_OUT=out, VH_SCRIPTS=sp, VH_SEED=ctx.seed, GOMAXPROCS=4), logf, timeout=700)
    seen = re.findall(r"^VERIF-SCRIPT (\d+) (\S+)", log, re.M)
    last = scripts[int(seen[-1][0]) if seen else 0]
    if os.path.exists(out) and count_lines(out):
        judge(ctx, name, out, scripts)
    if rc:
        p = lib_panic(log)
        if p:
            raise Violation("the library crashed: " + p, [world.replay(ctx, name, last), logf])
        if rc == 42:
            raise Violation("deadlock", [world.replay(ctx, name, last), logf])
        if rc == 43 and "VERIF-LEFT" not in log:
            raise Violation("a call did not return", [world.replay(ctx, name, last), logf])
        if rc != 43:
            raise Broken(f"TestNet rc={rc}: {tail(log)}")
    with ctx.lock:
        ctx.traces += len(scripts)


def judge(ctx, name, out, scripts):
    bad = ctx.validate("NetTrace", out, "NetTrace-" + name, {})
    n = count_lines(out)
    if bad:
        lines = open(out).read().split("\n")
        i = bad["line"] - 1
        b = next((j for j in range(min(i, len(lines) - 1), -1, -1) if '"ev":"begin"' in lines[j]), 0)
        sid = json.loads(lines[b])["s"]
        s = next(s for s in scripts if s["id"] == sid)
        f = ctx.path(f"{name}.violation.txt")
        open(f, "w").write(bad["fails"] + "\n" + "\n".join(lines[b:i + 1]) + "\n")
        raise Violation(f"{bad['fails']} in script {sid}\nevent {bad['line']}: {lines[i][:1200]}", [world.replay(ctx, name, s), f])
    with ctx.lock:
        ctx.events += n
    mid = json.loads(line(out, 1 + n // 2))
    ctx.sample({k: (v if len(str(v)) < 200 else str(v)[:200]) for k, v in mid.items()})


def c21(ctx):
    rng = random.Random(ctx.seed * 7919 + 21)
    k = 1 if ctx.quick else 12
    S = []
    for c, n, steps, hor, num in ((1, 1, 24, 40000, 10), (1, 3, 30, 40000, 12), (2, 2, 30, 40000, 14), (3, 3, 40, 50000, 8), (1, 6, 40, 50000, 6)):
        for b in behaviours(ctx, c, n, steps, hor, num * k):
            S.append(script(rng, len(S), b, c, n))
    rng.shuffle(S)
    m = 8 if ctx.quick else 32
    ctx.build()
    parts = [S[i::m] for i in range(m)]
    ctx.parallel(lambda i: play(ctx, f"net{i}", parts[i]), range(m))
    ctx.notes["scripts"] = len(S)


CHECKS = {"C21": world.with_models(lambda ctx: [lambda c, m=m: nmodel(c, m) for m in (["ports", "dmx"] if ctx.quick else ["ports", "dmx", "slow", "ctrls", "nodes"])], c21)}
