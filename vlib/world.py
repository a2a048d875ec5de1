"""C01-C08, C10-C13, C18, C20: scripts for TestWorld and their conformance with WorldTrace.tla.

A script is a list of stimuli with virtual times.  Scripts come from TLC (ControllerGen, Lifecycle)
or from the seeded generators below; what the library did is recorded and judged by TLC alone."""
import json, os, random, re
from .core import Violation, Broken, count_lines, line, lib_panic, tail
from . import dgram as dg

OWN = [10, 9, 8, 7]
# a hang or deadlock in ordinary use breaks these outright
NEEDS_PROGRESS = {"C02", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C18", "C20"}


# ---- playing scripts -------------------------------------------------------
EXACT = {0x2000: 14, 0x2100: 239, 0x2300: 530, 0x2400: 528, 0x5100: 530, 0x5200: 14, 0x6000: 107, 0x9700: 19, 0x9900: 530, 0xf800: 34, 0xf900: 34}


def vary(ctx, s):
    """What must not matter: the source (if it is another host), its port, and bytes behind a complete packet."""
    if s.get("varied"):
        return
    s["varied"] = True
    rng = random.Random(f"{ctx.seed} {s['id']}")
    if s.get("kind") == "ctrl" and s.get("ip") == OWN and rng.random() < .4:
        s["name"] = "".join(chr(rng.randrange(33, 127)) for _ in range(rng.choice([0, 1, 9, 17])))
        s["ip"] = rng.choice([OWN, [10, 9, 8, 6], [192, 168, 0, 255], [2, 0, 0, 0], [255, 1, 2, 3], [172, 16, 254, 9]])
        for o in s["ops"]:
            for x in [o] + o.get("list", []):
                if x.get("from") == OWN:
                    x["from"] = s["ip"]
    ports, near, own = rng.random() < .5, rng.random() < .3, s.get("ip") or OWN
    for o in s["ops"]:
        for x in [o] + o.get("list", []):
            if x["op"] != "rx":
                continue
            if ports and "port" not in x and rng.random() < .5:
                x["port"] = rng.choice([1, 53, 1023, 1024, 6453, 6455, 49152, 65535])
            if near and rng.random() < .2 and x["from"] != own:
                x["from"] = list(own)
                b = rng.choice([0, 1, 2, rng.randrange(32)])
                x["from"][3 - b // 8] ^= 1 << b % 8
            if rng.random() < .02 and len(x["hex"]) == 2 * EXACT.get(int(x["hex"][18:20] + x["hex"][16:18] or "0", 16), -1):
                x["hex"] += rng.randbytes(rng.choice([1, 2, 100, 600, 1500, 3000])).hex()


def play(ctx, name, scripts, race=False, monitor="WorldTrace", extra=None, env=None):
    """Run scripts in one process, let TLC judge the trace."""
    for s in scripts:
        vary(ctx, s)
    sp = ctx.path(f"{name}.scripts")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    start, part = 0, 0
    while start < len(scripts):
        out = ctx.path(f"{name}.{part}.ndjson")
        logf = ctx.path(f"{name}.{part}.log")
        e = dict(VH_OUT=out, VH_SCRIPTS=sp, VH_FROM=start, VH_SEED=ctx.seed, GOMAXPROCS=4, **(env or {}))
        rc, log = ctx.harness("TestWorld", e, logf, race=race, timeout=700)
        seen = re.findall(r"^VERIF-SCRIPT (\d+) (\S+)", log, re.M)
        last = int(seen[-1][0]) if seen else start
        if race and "WARNING: DATA RACE" in log:
            r = race_report(log)
            if r:
                raise Violation("data race:\n" + r, [replay(ctx, name, scripts[last]), logf])
        if monitor and os.path.exists(out) and count_lines(out):
            judge(ctx, f"{name}.{part}", out, scripts, monitor, extra)
        if rc == 0:
            break
        p = lib_panic(log)
        if p:
            raise Violation("the library crashed: " + p, [replay(ctx, name, scripts[last]), logf])
        if rc == 42:
            wedged(ctx, name, scripts[last], log, logf, race)
        elif rc == 43:
            hang = [json.loads(l) for l in open(out) if '"hang"' in l]
            if hang and ctx.pid in NEEDS_PROGRESS:
                raise Violation(f"{hang[-1]['what']} did not return", [replay(ctx, name, scripts[last]), logf])
            if not hang and ctx.pid == "C12":
                raise Violation("goroutines left behind:\n" + tail(log, 1500), [replay(ctx, name, scripts[last]), logf])
        else:
            raise Broken(f"TestWorld rc={rc}: {tail(log)}")
        start, part = last + 1, part + 1
        if part > 6:
            break
    with ctx.lock:
        ctx.traces += len(scripts)


def wedged(ctx, name, script, log, logf, race):
    """Nothing happened for a long time: confirm alone, with more patience."""
    if "stall=true" in log:
        raise Broken("script wedged during a stall: " + script["id"])
    sp = ctx.path(f"{name}.wedge")
    open(sp, "w").write(json.dumps(script) + "\n")
    out = ctx.path(f"{name}.wedge.ndjson")
    rc, l2 = ctx.harness("TestWorld", dict(VH_OUT=out, VH_SCRIPTS=sp, VH_SEED=ctx.seed, VH_WATCHDOG=60), ctx.path(f"{name}.wedge.log"),
                         race=race, timeout=300)
    if rc in (42, 43) and ctx.pid in NEEDS_PROGRESS:
        raise Violation("deadlock", [replay(ctx, name, script), logf])
    if lib_panic(l2):
        raise Violation("the library crashed: " + lib_panic(l2), [replay(ctx, name, script)])


def race_report(log):
    """The first report whose two conflicting accesses are in library code."""
    for r in log.split("WARNING: DATA RACE")[1:]:
        r = r.split("==================")[0]
        acc = re.split(r"^Goroutine \d+", r, flags=re.M)[0]
        parts = re.split(r"^(?=(?:Previous )?(?:[Rr]ead|[Ww]rite) at|Previous)", acc, flags=re.M)
        tops = [p for p in parts if re.match(r"(Previous )?(read|write) at", p, re.I)]
        if len(tops) >= 2 and all("go-artnet" in t for t in tops):
            return tail(r, 2500)
    return None


def replay(ctx, name, script):
    p = ctx.path(f"{name}.replay.json")
    open(p, "w").write(json.dumps(script) + "\n")
    return p


def judge(ctx, name, out, scripts, monitor="WorldTrace", extra=None):
    consts = {"Property": f'"{ctx.pid}"'}
    consts.update(extra or {})
    for f in (".cat", ".dump"):
        if not os.path.exists(out + f):
            open(out + f, "w").close()
    bad = ctx.validate(monitor, out, f"{monitor}-{name}", consts, env={"CAT": out + ".cat", "DUMP": out + ".dump"})
    n = count_lines(out)
    if bad:
        lines = open(out).read().split("\n")
        i = bad["line"] - 1
        ev = lines[i] if i < len(lines) else ""
        b = next((j for j in range(min(i, len(lines) - 1), -1, -1) if '"ev":"begin"' in lines[j]), 0)
        sid = json.loads(lines[b])["s"]
        s = next((s for s in scripts if s["id"] == sid), None)
        f = ctx.path(f"{name}.violation.txt")
        open(f, "w").write(bad["fails"] + "\n" + "\n".join(lines[b:i + 1]) + "\n")
        raise Violation(f"{bad['fails']} in script {sid}\nevent {bad['line']}: {ev[:1200]}", [replay(ctx, name, s), f])
    with ctx.lock:
        ctx.events += n
    mid = json.loads(line(out, 1 + n // 2))
    ctx.sample({k: (v if len(str(v)) < 200 else str(v)[:200]) for k, v in mid.items()})


def shards(ctx, scripts, n=8, **kw):
    ctx.build(kw.get("race", False))
    parts = [scripts[i::n] for i in range(n)]
    ctx.parallel(lambda i: play(ctx, f"w{i}", parts[i], **kw), [i for i in range(n) if parts[i]])
    ctx.notes["scripts"] = ctx.notes.get("scripts", 0) + len(scripts)


# ---- behaviours from the specification -------------------------------------
GEN = """SPECIFICATION Spec
INVARIANT NoClash
CHECK_DEADLOCK FALSE
CONSTANT IPs = {%s}
CONSTANT Groups = {%s}
CONSTANT Steps = %d
CONSTANT Gaps = {%s}
CONSTANT Horizon = %d
CONSTANT Clashes = %s
CONSTANT Aim = "%s"
"""
GAPS = [1, 2, 3, 24, 120, 249, 250, 251, 252, 400, 999, 2000]


def behaviours(ctx, num, aim="mix", nodes=3, groups=((1, 2, 3, 4), (5, 6, 7)), steps=40, horizon=26000, clashes=False, gaps=GAPS, seed=None):
    f = ctx.path(f"gen-{aim}-{nodes}-{clashes}-{steps}.beh")
    cfg = GEN % (", ".join(str(i + 1) for i in range(nodes)), ", ".join("{" + ", ".join(map(str, g)) + "}" for g in groups),
                 steps, ", ".join(map(str, gaps)), horizon, "TRUE" if clashes else "FALSE", aim)
    rc, out = ctx.tlc("ControllerGen", cfg, "gen-" + aim + str(nodes) + str(clashes), 1, 300,
                      ("-simulate", f"num={num}", "-depth", str(steps + 5), "-seed", str(seed or ctx.seed * 97 + 13)), {"BEHAVIOURS": f})
    if rc != 0 or not os.path.exists(f):
        raise Broken("generator failed: " + tail(out))
    res, seen = [], set()
    for l in open(f):
        if l.strip() and l not in seen:
            seen.add(l)
            res.append(json.loads(l))
    with ctx.lock:
        ctx.notes.setdefault("generated_behaviours", {})[f"{aim}/{nodes}/{'clash' if clashes else 'no clash'}"] = len(res)
    return res[:num]


IPPOOL = [[2, 0, 0, 1], [2, 0, 0, 10], [10, 0, 0, 1], [10, 0, 1, 0], [192, 168, 1, 17], [127, 0, 0, 1], [2, 255, 255, 254], [1, 0, 0, 2],
          [172, 16, 255, 255], [10, 9, 8, 6], [10, 9, 8, 8], [255, 1, 2, 3]]


def ippool(rng):
    """Addresses of the nodes; often they differ in one octet or bit only."""
    if rng.random() < .4:
        return rng.sample(IPPOOL, len(IPPOOL))
    base = rng.choice(IPPOOL[:9])
    out = [base]
    if rng.random() < .6:       # neighbours: one bit, mostly of the last octet
        for b in rng.sample(range(8), 3) + rng.sample(range(32), 32):
            x = list(base)
            x[3 - b // 8] ^= 1 << b % 8
            if x not in out and x != OWN and len(out) < 12:
                out.append(x)
        return out
    while len(out) < 12:
        x = list(rng.choice(out))
        k = rng.randrange(4)
        x[k] = rng.choice([x[k] ^ (1 << rng.randrange(8)), rng.randrange(256), x[(k + 1) % 4]])
        if x not in out and x != OWN:
            out.append(x)
    rng.shuffle(out)
    return out


def details(rng):
    """What an announcement says besides its ports."""
    T = lambda n: "".join(chr(rng.randrange(32, 127)) for _ in range(rng.choice([0, 3, n])))
    return dict(name=T(17), long=T(63), oem=rng.randrange(65536), version=rng.randrange(65536), mac=rng.randbytes(6), status2=rng.randrange(256), status1=rng.randrange(256),
                ubea=rng.randrange(256), esta=rng.choice([b"AB", b"\0\0", b"z\0"]), report=rng.randbytes(rng.choice([0, 10, 64])), bindip=rng.choice([b"\0" * 4, rng.randbytes(4)]),
                bind=rng.randrange(256), good=rng.randrange(256), sw=rng.randbytes(3), types=[rng.choice([0, 0, 5, rng.randrange(64)]) for _ in range(4)])


def near(rng, a):
    """An address that differs little from a, at times not a legal one."""
    return rng.choice([a ^ (1 << rng.randrange(16)), a ^ 0x8000, (a >> 8 | a << 8) & 0xffff, (a + 1) & 0xffff, a & 0xff, a & 0xf])


def addressing(rng, groups):
    """Concrete universe addresses: groups lie in different Nets/Sub-Nets, their universes may coincide."""
    m, used = {}, set()
    for g in groups:
        while True:
            base = rng.choice([rng.randrange(0, 4096 if rng.random() < .15 else 2048) << 4, rng.choice([0, 0x10, 0x100, 0x1000, 0x7ff0, 0x120])])
            if base >> 4 not in used:
                break
        used.add(base >> 4)
        unis = rng.sample(range(16), len(g)) if rng.random() < .5 else [(i * 1) for i in range(len(g))]
        for a, u in zip(g, unis):
            m[a] = base | u
    return m


def off_tick(t, fps):
    """t (µs), moved away from the frame ticks."""
    iv = 1e6 / fps
    if iv < 8:
        return t
    near = round(t / iv) * iv
    if abs(t - near) < 3:
        return int(near + min(iv / 2, 5))
    return int(t)


def script(rng, i, beh, groups, fps=1000, snaps="some", name="s", opts=(), frm="same", exact=False, blast=.04):
    """A generated behaviour as a script."""
    m = addressing(rng, groups)
    ips = ippool(rng)
    ops = [dict(at=0, op="start")]
    off = 0 if exact else 500
    info = {}
    last = -1
    who = rng.choice(["ctl", "", "controller no. 1"])

    def at(ms):
        nonlocal last
        t = off_tick(ms * 1000 + off, fps)
        if t <= last:
            t = last + (0 if rng.random() < .3 else 1)
        last = t
        return t
    known = sorted({e["ip"] for e in beh["log"] if e["ip"]})
    for ip in known:
        info[ip] = details(rng)
    for e in beh["log"]:
        k = e["k"]
        if k in ("announce", "other"):
            outs, ins = [m[a] for a in e["outs"]], [m[a] for a in e["ins"]]
            rng.shuffle(outs)
            rng.shuffle(ins)
            if outs and len(outs) < 4 and rng.random() < .08:
                outs.append(rng.choice(outs))   # two ports on one universe
            ip = ips[e["ip"] - 1]
            style = 0
            if k == "other":
                # ignored: other styles, or a controller without output ports
                style = rng.choice([2, 3, 4, 5, 6, 1])
                if style == 1:
                    outs, ins = [], outs
            elif outs and rng.random() < .12:
                style = 1
            inf = dict(info[e["ip"]])
            if rng.random() < .4:
                d = details(rng)
                inf.update({k: d[k] for k in d if rng.random() < .3})
                if rng.random() < .3:
                    info[e["ip"]] = inf
            if rng.random() < .12:      # bound to another node, or with the controller's name
                inf.update(bindip=bytes(rng.choice(ips[:max(known)] + [OWN])), bind=rng.choice([0, 1, 2, 2, 3, 255]))
            if rng.random() < .06:
                inf.update(name=who)
            some = outs + ins
            b = dg.reply(ip, outs, ins, style, tail=bytes(rng.randrange(3)),
                         **inf, **({} if some else dict(net=0, sub=0)))
            src = ip if frm == "same" or rng.random() < .7 else rng.choice(IPPOOL)
            t = at(e["at"])
            if ops[-1]["at"] == t:      # announcements need an instant of their own: handlers run in any order
                t = last = t + 1
            ops.append(dict(at=t, op="rx", hex=dg.hexs(b), **{"from": src}))
            last = t + 1
            if snaps == "all" or snaps == "some" and rng.random() < .3:
                ops.append(dict(at=at(e["at"]) + 20, op="snap"))
                last = ops[-1]["at"]
        elif k == "write":
            w = m[e["a"]] if rng.random() < .93 else near(rng, m[e["a"]])
            ops.append(dict(at=at(e["at"]), op="write", a=w, frame=e["frame"] if rng.random() < .95 else 0))
            if rng.random() < blast:        # all addresses within one frame interval
                for x, a in enumerate(rng.sample(sorted(m.values()), len(m))):
                    ops.append(dict(at=ops[-1]["at"], op="write", a=a, frame=100000 + e["frame"] * 100 + x))
        elif k == "poll":
            ops.append(dict(at=at(e["at"]), op="rx", hex=dg.hexs(dg.poll(rng.randrange(256), rng.choice([0, 0x10, 0x80]), tail=bytes(rng.randrange(4)))),
                            **{"from": rng.choice(IPPOOL)}))
        elif k == "own":
            b = rng.choice([dg.poll(), dg.reply(OWN, [m[1]], []), dg.reply(ips[0], [m[1]], [])])
            ops.append(dict(at=at(e["at"]), op="rx", hex=dg.hexs(b), **{"from": OWN}))
        elif k == "noise":
            ops.append(dict(at=at(e["at"]), op="rx", hex=dg.hexs(noise(rng)), **{"from": rng.choice(IPPOOL)}))
        if snaps == "all" and k in ("write", "poll", "noise", "own") and rng.random() < .2:
            ops.append(dict(at=at(e["at"]) + 20, op="snap"))
            last = ops[-1]["at"]
    end = beh["end"]
    if snaps:
        # around the housekeeping passes
        extra = []
        for g in range(3, end // 1000 + 10, 3):
            if snaps == "all" or rng.random() < .4:
                extra.append(dict(at=g * 1000000 - 130, op="snap"))
                extra.append(dict(at=g * 1000000 + 130, op="snap"))
        ops = sorted(ops + extra, key=lambda o: o["at"])
    fin = max(ops[-1]["at"], end * 1000) + rng.choice([300700, 1200700, 7300700])
    ops.append(dict(at=off_tick(fin - 100, fps), op="quiet"))
    if rng.random() < .5:
        ops.append(dict(at=fin, op="stop"))
    o = list(opts)
    if fps != 1000:
        o.append(dict(o="fps", v=fps))
    return dict(id=f"{name}{i}", kind="ctrl", ip=OWN, name=who, opts=o, ops=ops)


def noise(rng):
    k = rng.randrange(8)
    if k == 0:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(0, 40)))
    if k == 1:
        return dg.poll()[:rng.randrange(0, 14)]
    if k == 2:
        return dg.reply([10, 0, 0, 1], [1, 2])[:rng.randrange(0, 200)]
    if k == 3:
        return dg.head(rng.randrange(65536)) + bytes(30)
    if k == 4:
        return dg.dmx(0, 1, bytes(rng.choice([2, 10, 512])))
    if k == 5:
        return dg.poll(ver=rng.randrange(0, 14))
    if k == 6:
        return dg.reply([10, 0, 0, 1], [1], style=rng.randrange(7, 256))
    return dg.reply([10, 0, 0, 1], [1], port=rng.choice([0, 1234, 6455]))


# ---- models ----------------------------------------------------------------
CMC = """SPECIFICATION %s
INVARIANT TypeOK %s
%sCHECK_DEADLOCK FALSE
CONSTANT IPs = {%s}
CONSTANT Addrs = {%s}
CONSTANT Ins = {%s}
CONSTANT Frames = {%s}
CONSTANT Force = %d
CONSTANT PollEvery = %d
CONSTANT StaleAfter = %d
CONSTANT SeqMax = %d
CONSTANT Clashes = %s
CONSTANT Engine = %s
"""
ALLINV = "RightNode RightFrame Prompt KeptAlive RateLimit Sequence Fresh Gone Latest Mirror NoStray"
# ips, addrs, ins, frames, force, poll, stale, seqmax, clashes, engine
MODELS = {
    "dmx1": (1, 2, 0, 1, 1, 2, 2, 2, False, True),
    "dmx2": (2, 1, 0, 1, 1, 2, 2, 2, False, True),
    "small": (1, 1, 0, 2, 2, 2, 3, 3, False, True),
    "live": (1, 1, 0, 1, 1, 2, 2, 2, False, True),
    "reg": (2, 1, 1, 0, 1, 2, 3, 1, True, False),
    "reg2": (2, 2, 0, 0, 1, 2, 3, 1, True, False),
    "reg3": (3, 1, 0, 0, 1, 2, 3, 1, True, False),
}


def cmodel(ctx, which, workers=4):
    ips, ad, ins, fr, force, poll, stale, seq, cl, en = MODELS[which]
    S = lambda n, p="": ", ".join(f'"{p}{i + 1}"' if p else str(i + 1) for i in range(n))
    B = lambda b: "TRUE" if b else "FALSE"
    ctx.model("ControllerMC", CMC % ("Live" if which == "live" else "Spec", ALLINV, "PROPERTY Polls PollsAgain\n" if which == "live" else "", S(ips, "n"), S(ad), S(ins), S(fr), force, poll, stale, seq, B(cl), B(en)),
              "ControllerMC-" + which, workers=workers, heap="6g")


class Background:
    """Model checking next to the conformance runs."""

    def __init__(self, ctx, jobs):
        import threading
        self.err = None

        def go():
            try:
                for j in jobs:
                    j()
            except Exception as e:
                self.err = e
        self.t = threading.Thread(target=go)
        self.t.start()

    def join(self):
        self.t.join()
        if self.err:
            raise self.err


def with_models(jobs, body):
    def check(ctx):
        bg = Background(ctx, [lambda j=j: j(ctx) for j in jobs(ctx)])
        try:
            body(ctx)
        finally:
            bg.t.join()
        bg.join()
    return check


FPS = [1000, 1000, 40, 44, 30, 25, 7, 1, 3, 60, 250, 997, 333, 2000]


def ctrl(plan, models, extra=None):
    """plan: list of (aim, nodes, groups, steps, horizon, clashes, share); models: quick and thorough."""
    def body(ctx):
        rng = random.Random(ctx.seed * 7919 + int(ctx.pid[1:]))
        scripts = []
        for aim, nodes, groups, steps, horizon, clashes, num, kw in plan:
            n = num if ctx.quick else num * 12
            for b in behaviours(ctx, n, aim, nodes, groups, steps, horizon, clashes):
                fps = kw.get("fps", FPS)
                k = dict(kw)
                k.pop("fps", None)
                scripts.append(script(rng, len(scripts), b, groups, fps=rng.choice(fps), name=aim[0] + ("x" if clashes else ""), **k))
        if extra:
            scripts += extra(rng, 1 if ctx.quick else 12)
        rng.shuffle(scripts)
        shards(ctx, scripts, 8 if ctx.quick else 32)
    return with_models(lambda ctx: [lambda c, m=m: cmodel(c, m) for m in models[0 if ctx.quick else 1]], body)


G1 = ((1, 2, 3, 4), (5, 6, 7))
G2 = ((1, 2), (3, 4), (5, 6))
GW = ((1, 2, 3, 4), (5, 6, 7, 8), (9, 10, 11, 12), (13, 14, 15, 16), (17, 18, 19, 20), (21, 22, 23, 24), (25, 26, 27, 28), (29, 30, 31, 32))
G4 = ((1, 2),)
G3 = ((1, 2, 3, 4), (5, 6, 7, 8), (9, 10, 11, 12))

def wide(rng, q):
    """Many nodes, up to 48 addresses, all written at once, the network slow at times."""
    S = []
    for i in range(10 * q):
        fps = rng.choice([1000, 200, 44, 25])
        n = rng.choice([3, 5, 8, 12])
        ips = ippool(rng)[:n]
        ops, t = [dict(at=0, op="start")], 500
        if rng.random() < .6:
            ops.append(dict(at=0, op="slownet", n=rng.choice([20, 100, 300])))
        ads = []
        for k, ip in enumerate(ips):
            own = [64 * k + 16 * rng.randrange(4) + x for x in rng.sample(range(16), rng.choice([1, 3, 4]))]
            b = own[0] & ~15
            own = sorted({b | (x & 15) for x in own})
            ads.append(own)
            t += rng.choice([7, 331, 20011])
            ops.append(rxop(off_tick(t, fps), dg.reply(ip, own, [], **details(rng)), ip))
        fr = 0
        for _ in range(rng.choice([3, 6])):
            t += rng.choice([1013, 40017, 600011])
            flat = [a for o in ads for a in o]
            rng.shuffle(flat)
            for a in flat if rng.random() < .7 else flat[:rng.randrange(len(flat)) + 1]:
                fr += 1
                ops.append(dict(at=off_tick(t, fps), op="write", a=a, frame=fr))
            if rng.random() < .5:
                k = rng.randrange(n)
                t += 1007
                ops.append(rxop(off_tick(t, fps), dg.reply(ips[k], ads[k], [], **details(rng)), ips[k]))
            ops.append(dict(at=t + 500, op="snap"))
        t += rng.choice([800011, 9000011])
        ops.append(dict(at=t, op="quiet"))
        for a, b in zip(ops, ops[1:]):
            b["at"] = max(a["at"], b["at"])
        S.append(dict(id=f"w{i}", kind="ctrl", ip=OWN, name="c", ops=ops, opts=[] if fps == 1000 else [dict(o="fps", v=fps)]))
    return S


def wrap(rng, q):
    """Enough frames to one node for its sequence numbers to start over, with and without writes."""
    S = []
    for i in range(5 * q):
        fps = rng.choice([1000, 200, 44])
        n = rng.choice([1, 2])
        ips = ippool(rng)[:n]
        ads = [[64 * k + x for x in rng.sample(range(16), rng.choice([3, 4]))] for k in range(n)]
        ops, end = [dict(at=0, op="start")], rng.choice([23, 27, 40]) * 1000000
        for k, ip in enumerate(ips):
            inf = details(rng)
            t = 500 + 1300 * k
            shifty = rng.random() < .5
            while t < end:
                now = rng.sample(ads[k], rng.choice([0, 0, 1, 2])) if shifty and rng.random() < .3 else ads[k]
                ops.append(rxop(off_tick(t, fps), dg.reply(ip, now, [], **inf), ip))
                t += rng.choice([2900017, 3000011, 6000019]) if now is ads[k] else rng.choice([400013, 2900017])
        fr, t = 0, 700013
        busy = rng.choice([0, 0, 30])
        for _ in range(busy):
            t += rng.choice([25013, 250007, 700001])
            for a in rng.sample(sum(ads, []), rng.choice([1, 3])):
                fr += 1
                ops.append(dict(at=off_tick(t, fps), op="write", a=a, frame=fr))
        ops.sort(key=lambda o: o["at"])
        ops.append(dict(at=max(end, ops[-1]["at"] + 20), op="quiet"))
        S.append(dict(id=f"r{i}", kind="ctrl", ip=OWN, name="c", ops=ops, opts=[] if fps == 1000 else [dict(o="fps", v=fps)]))
    return S


def rxop(at, b, frm):
    return dict(at=at, op="rx", hex=dg.hexs(b), **{"from": frm})


def edge(rng, q):
    """Announcements that are exactly 7 s old, or a microsecond less or more, at a housekeeping pass."""
    S = []
    for i in range(14 * q):
        ops, n = [dict(at=0, op="start")], rng.choice([1, 2, 4])
        ips = ippool(rng)[:n]
        for k, ip in enumerate(ips):
            for _ in range(rng.choice([1, 2, 3])):
                d = rng.choice([0, 0, -1, 1, 1000, -1000]) + k * rng.choice([0, 2])
                t = 1000000 * (2 + 3 * rng.randrange(4)) + d
                while any(abs(o["at"] - t) < 1 for o in ops if o["op"] == "rx"):
                    t += 1
                ops.append(rxop(t, dg.reply(ip, [16 * k + 1], [16 * k + 2], **details(rng)), ip))
        for g in range(3, 28, 3):
            ops += [dict(at=g * 1000000 - 130, op="snap"), dict(at=g * 1000000 + 130, op="snap")]
        ops.sort(key=lambda o: o["at"])
        S.append(dict(id=f"e{i}", kind="ctrl", ip=OWN, name="c", ops=ops, opts=[dict(o="fps", v=rng.choice([7, 30, 1]))]))
    return S


def crowd(rng, q):
    """Far more nodes and addresses than any table is likely to be made for."""
    S = []
    for i, n in enumerate([18, 40, 70, 140, 270] * (1 if q == 1 else 3)):
        fps = rng.choice([4, 10])
        ips = [[10, 7, k // 256, k % 256] for k in rng.sample(range(600), n)]
        ops, t = [dict(at=0, op="start")], 500
        few = n if n < 100 else 12      # the others have no outputs
        ads = []
        for k, ip in enumerate(ips):
            own = [16 * k + x for x in rng.sample(range(16), rng.choice([1, 2, 4]))] if k < few else []
            ins = [16 * k + rng.randrange(16)]
            ads.append((own, ins))
            t += rng.choice([7, 131, 1011])
            ops.append(rxop(off_tick(t, fps), dg.reply(ip, own, ins), ip))
        t += 2000
        ops.append(dict(at=t, op="snap"))
        flat = [a for o, _ in ads for a in o]
        for k, a in enumerate(rng.sample(flat, len(flat))):
            ops.append(dict(at=off_tick(t + 500, fps), op="write", a=a, frame=k + 1))
        t += 700000
        ops.append(dict(at=t, op="snap"))
        # some stay
        for k in rng.sample(range(n), rng.choice([1, n // 2, n - 1])):
            t += rng.choice([3, 131, 1011])
            ops.append(rxop(off_tick(t, fps), dg.reply(ips[k], *ads[k]), ips[k]))
        g = (t // 3000000 + 1) * 3000000
        ops += [dict(at=x, op="snap") for x in (g - 130, g + 6000130, g + 9000130)]
        for a, b in zip(ops, ops[1:]):
            b["at"] = max(a["at"], b["at"])
        S.append(dict(id=f"k{i}", kind="ctrl", ip=OWN, name="c", ops=ops, opts=[dict(o="fps", v=fps)]))
    return S


def long_runs(rng, q):
    """A quarter of an hour with little change: whatever counts something up to 255 wraps."""
    S = []
    for i in range(3 * q):
        fps = rng.choice([1000, 44, 25, 4])
        n = rng.choice([0, 1, 1]) if i % 3 else 1
        ips = ippool(rng)[:n]
        end = rng.choice([800, 870]) * 1000000
        ops, fr = [dict(at=0, op="start")], 0
        for k, ip in enumerate(ips):
            t, ad = 500 + 1300 * k, 64 * k + rng.randrange(16)
            hole = rng.choice([0, 0, 300000000])
            while t < end:
                if not hole < t < hole + 20000000:
                    ops.append(rxop(off_tick(t, fps), dg.reply(ip, [ad], [ad ^ 1]), ip))
                t += rng.choice([3000011, 5900017, 6800019])
            for _ in range(rng.choice([1, 5])):
                fr += 1
                ops.append(dict(at=off_tick(rng.randrange(1000000, end), fps), op="write", a=ad, frame=fr))
        if i % 3 == 0:      # one that comes and goes, without ports
            ip, t = [77, 0, 0, 1], 1700
            while t < end:
                ops.append(rxop(off_tick(t, fps), dg.reply(ip, [], []), ip))
                t += rng.choice([3000011, 7000013, 9100011, 10400007, 12200003])
        passes = range(2, end // 3000000) if i % 3 == 0 else rng.sample(range(2, end // 3000000), 12)
        ops += [dict(at=3000000 * g + x, op="snap") for g in passes for x in (-130, 130)]
        ops.sort(key=lambda o: o["at"])
        ops.append(dict(at=max(end, ops[-1]["at"] + 20), op="quiet"))
        S.append(dict(id=f"q{i}", kind="ctrl", ip=OWN, name="c", ops=ops, opts=[] if fps == 1000 else [dict(o="fps", v=fps)]))
    return S


def many(*fs):
    return lambda rng, q: [s for f in fs for s in f(rng, q)]


CHECKS = {
    "C01": ctrl([("toggle", 2, G4, 50, 20000, False, 40, {}), ("mix", 3, G1, 40, 20000, False, 40, {}), ("dmx", 2, G2, 60, 12000, False, 30, dict(frm="other")),
                 ("churn", 3, G2, 40, 30000, False, 24, {}), ("churn", 3, G2, 30, 15000, True, 10, {})], (["small"], ["small", "dmx1", "dmx2"]), many(wide, wrap, crowd)),
    "C02": ctrl([("toggle", 2, G4, 50, 20000, False, 16, {}), ("mix", 3, G1, 40, 20000, False, 30, {}), ("dmx", 2, G2, 60, 12000, False, 40, {}),
                 ("churn", 3, G2, 40, 20000, False, 24, {})], (["small"], ["small", "dmx1", "dmx2"]), many(wide, wrap, crowd, long_runs)),
    "C03": ctrl([("toggle", 2, G4, 50, 20000, False, 16, {}), ("mix", 3, G1, 40, 20000, False, 30, {}), ("dmx", 2, G2, 80, 6000, False, 40, {}), ("dmx", 2, G3, 60, 80000, False, 8, dict(snaps=None)),
                 ("churn", 3, G2, 40, 20000, False, 24, {})], (["small"], ["small", "dmx1", "dmx2"]), many(wide, wrap, long_runs)),
    "C04": ctrl([("toggle", 2, G4, 50, 20000, False, 16, {}), ("mix", 3, G1, 40, 40000, False, 20, {}), ("dmx", 2, G3, 60, 80000, False, 16, dict(snaps=None)),
                 ("churn", 3, G2, 40, 30000, False, 24, {})], (["small"], ["small", "dmx1", "dmx2"]), many(wide, wrap, long_runs)),
    "C05": ctrl([("toggle", 2, G4, 50, 30000, False, 16, dict(snaps="all")), ("churn", 4, G1, 40, 40000, False, 60, dict(snaps="all")), ("mix", 9, GW, 50, 40000, False, 30, dict(snaps="all")),
                 ("churn", 3, G2, 40, 40000, True, 20, dict(snaps="all", frm="other"))], (["reg"], ["reg", "reg2", "reg3"]), many(edge, crowd, long_runs)),
    "C06": ctrl([("toggle", 2, G4, 50, 30000, False, 16, dict(snaps="all")), ("churn", 4, G1, 40, 40000, False, 60, dict(snaps="all")), ("mix", 9, GW, 50, 40000, False, 30, dict(snaps="all")),
                 ("churn", 3, G2, 40, 40000, True, 40, dict(snaps="all", frm="other"))], (["reg"], ["reg", "reg2", "reg3"]), many(edge, crowd, long_runs)),
}
