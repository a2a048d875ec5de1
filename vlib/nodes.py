"""Scripts for C07, C08, C10-C13, C20: nodes, life cycle, options, faults."""
import itertools, json, os, random, struct
from .core import Broken, tail
from . import dgram as dg
from .world import (OWN, IPPOOL, shards, play, with_models, cmodel, behaviours, script, G1, G2, G3, noise, off_tick, FPS, long_runs)

SIZES = {0x2000: 14, 0x2100: 239, 0x2300: 530, 0x2400: 528, 0x5000: 530, 0x5100: 530, 0x5200: 14, 0x6000: 107, 0x9700: 19, 0x9900: 530,
         0xf800: 34, 0xf900: 34}
OPS = list(SIZES)
OTHER_OPS = [0x2101, 0x8000, 0x0000, 0x9999, 0xffff, 0x7000]


def rbytes(rng, n):
    k = rng.random()
    if k < .15:
        return bytes(n)
    if k < .25:
        return b"\xff" * n
    return rng.randbytes(n)


def packet(rng, op):
    """A well-formed datagram of this opcode with arbitrary contents."""
    n = SIZES[op]
    if op == 0x2100:
        b = bytearray(dg.reply(rng.choice(IPPOOL), style=rng.randrange(7)))
        b[16:172] = rbytes(rng, 156)
        b[172:200] = rbytes(rng, 28)
        b[201:239] = rbytes(rng, 38)
        return bytes(b)
    if op == 0x5000:
        k = rng.choice([2, 4, 100, 510, 512])
        return dg.head(op) + rbytes(rng, 4) + struct.pack(">H", k) + rbytes(rng, k)
    b = bytearray(dg.head(op, rng.choice([14, 14, 15, 255])) + rbytes(rng, n - 12))
    if op == 0x2400:
        b[12:14] = b"\xff\xff"
    return bytes(b)


def mutate(rng, b):
    """Somewhere near a well-formed datagram."""
    b = bytearray(b)
    k = rng.randrange(7)
    if k == 0:
        return bytes(b[:rng.randrange(len(b) + 1)])
    if k == 1 and b:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif k == 2:
        b[rng.randrange(min(14, len(b)))] = rng.randrange(256)
    elif k == 3:
        b += rng.randbytes(rng.randrange(1, 40))
    elif k == 4 and len(b) > 18:
        b[16:18] = struct.pack(">H", rng.choice([0, 1, 2, 3, 511, 512, 513, 514, 0xffff, 0x8000]))
    elif k == 5:
        b[8:10] = struct.pack("<H", rng.choice(OPS + OTHER_OPS))
    else:
        b = bytearray(b[:-1])
    return bytes(b)


def garbage(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.randbytes(rng.choice([0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 100]))
    if k == 1:
        return b""
    if k == 2:
        return b"Art-Net\0" + rng.randbytes(rng.choice([0, 1, 2, 3, 4, 6, 30, 600]))
    if k == 3:
        return noise(rng)
    return mutate(rng, packet(rng, rng.choice(OPS)))


def rx(at, b, frm, **kw):
    return dict(at=at, op="rx", hex=dg.hexs(b), **{"from": frm}, **kw)


def cfg(rng, own, ports=True, style=0, good=True):
    base = rng.randrange(0, 2048) << 4
    n, m = (rng.randrange(5), rng.randrange(5)) if ports else (0, 0)
    proto = [rng.randrange(6) for _ in range(4)]
    text = lambda k: [rng.randrange(32, 127) for _ in range(rng.choice([0, 1, rng.randrange(k + 1), k]))]
    P = lambda i, bit: dict(addr=base | rng.randrange(16), type=proto[i] | rng.choice([0, bit]), status=rng.randrange(256))
    c = dict(oem=rng.randrange(65536), version=rng.randrange(65536), bios=rng.randrange(256), manufacturer=text(2), style=style,
             name=text(17), description=text(63), report=[rng.randrange(256) for _ in range(rng.choice([0, 3, 64]))],
             mac=list(rng.randbytes(6)) if rng.random() < .7 else [], ip=own, bindip=rng.choice([[], [1, 2, 3, 4]]), bindindex=rng.randrange(256),
             port=rng.choice([0, 0, 6454, rng.randrange(65536)]), status1=rng.randrange(256), status2=rng.randrange(256), base=base,
             inputs=[P(i, 0x40) for i in range(n)], outputs=[P(i, 0x80) for i in range(m)])
    if not good:
        c["inputs"] = [dict(addr=base, type=1, status=0)] * rng.choice([1, 5])
        c["outputs"] = [dict(addr=base, type=0, status=0)]
    return c


def node(rng, sid, ops, **kw):
    own = kw.pop("ip", None)
    if own is None:
        own = rng.choice([OWN, OWN, [2, 0, 0, 5], []])
    style = kw.pop("style", rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6]))
    c = kw.pop("cfg", None) or cfg(rng, own, style=style)
    return dict(id=sid, kind="node", ip=own, ip16=rng.random() < .3, name="n", style=style, cfg=c, ops=ops, **kw)


# ---- Runtime.tla -----------------------------------------------------------
RT = """SPECIFICATION %s
%s
CHECK_DEADLOCK FALSE
CONSTANT Ctrl = %s
CONSTANT Cap = %d
CONSTANT Rx = %d
CONSTANT Errors = %d
CONSTANT Stalls = %d
CONSTANT Universes = %d
CONSTANT Writes = %d
CONSTANT Ticks = %d
CONSTANT MayStop = %s
CONSTANT Deviations = {%s}
"""
RTINV = "INVARIANT Alive NothingLeft Delivery Knowledge OneReply NeverMore Bounded Quiet QuietStop\nPROPERTY Silent"
# name: (spec, what, ctrl, cap, rx, errors, stalls, universes, writes, ticks, stop)
RTMODELS = {
    "node": ("Spec", RTINV, False, 1, 2, 1, 1, 0, 0, 0, True),
    "ctrl": ("Spec", RTINV, True, 1, 1, 0, 1, 2, 0, 1, True),
    "node4": ("Spec", RTINV, False, 1, 4, 1, 1, 0, 0, 0, True),
    "node-cap2": ("Spec", RTINV, False, 2, 3, 2, 1, 0, 0, 0, True),
    "ctrl-full": ("Spec", RTINV, True, 1, 1, 1, 1, 2, 1, 2, True),
    "node-stop-live": ("StallSpec", "PROPERTY StopEnds", False, 1, 2, 1, 1, 0, 0, 0, True),
    "node-live": ("FairSpec", "PROPERTY Answered Called", False, 1, 4, 1, 1, 0, 0, 0, False),
    "ctrl-stop-live": ("StallSpec", "PROPERTY StopEnds", True, 1, 1, 0, 1, 2, 0, 2, True),
    "ctrl-live": ("FairSpec", "PROPERTY LightsGoOn EngineGoesOn CallEnds Noticed Called", True, 1, 1, 1, 1, 2, 1, 2, False),
}
# mistakes the model has to find: in the node, in the controller
DEVIATIONS = [(False, d) for d in ("blocking", "readerquits", "senderquits", "keepsocket", "nowait", "awaitsusers", "inline", "droppoll")] \
    + [(True, "senderlocks"), (True, "blocking")]


def rtmodel(ctx, which, workers=4):
    sp, what, *k, stop = RTMODELS[which]
    B = lambda b: "TRUE" if b else "FALSE"
    ctx.model("Runtime", RT % (sp, what, B(k[0]), *k[1:], B(stop), ""), "Runtime-" + which, workers=workers, heap="8g")


def rtdeviations(ctx):
    for c, d in DEVIATIONS:
        k = (1, 1, 0, 1, 2, 1, 2) if c else (1, 3, 1, 1, 0, 0, 0)
        rc, out = ctx.tlc("Runtime", RT % ("Spec", RTINV, "TRUE" if c else "FALSE", *k, "TRUE", f'"{d}"'), f"Runtime-dev-{d}", 4, 600)
        if "is violated" not in out:
            raise Broken(f"Runtime.tla does not see the deviation {d}:\n" + tail(out))
        with ctx.lock:
            ctx.notes.setdefault("deviations_found", []).append(("ctrl " if c else "node ") + d)


def rtjobs(quick, thorough):
    def jobs(ctx):
        if ctx.quick:
            return [lambda c, m=m: rtmodel(c, m, 2) for m in quick]
        return [lambda c, m=m: rtmodel(c, m) for m in thorough] + [rtdeviations]
    return jobs


def histories(ctx, num, length=60, tempo=3):
    f = ctx.path(f"rtgen-{length}-{tempo}.beh")
    cfg_ = RT % ("GSpec", "INVARIANT Alive NothingLeft Delivery OneReply NeverMore Bounded", "FALSE", 10, 400, 8, 3, 0, 0, 0, "TRUE", "") \
        + f"CONSTANT Length = {length}\nCONSTANT Tempo = {tempo}\n"
    rc, out = ctx.tlc("RuntimeGen", cfg_, f"rtgen-{length}-{tempo}", 1, 300,
                      ("-simulate", f"num={num}", "-depth", "4000", "-seed", str(ctx.seed * 89 + length + tempo)), {"BEHAVIOURS": f})
    if rc != 0 or not os.path.exists(f):
        raise Broken("generator failed: " + tail(out))
    res = [json.loads(l) for l in sorted({l for l in open(f) if l.strip()})]
    with ctx.lock:
        ctx.notes.setdefault("generated_behaviours", {})[f"runtime {length}/{tempo}"] = len(res)
    return res[:num]


def rt_script(rng, i, hist):
    """A history of Runtime.tla's environment as a script for a real node."""
    slow = rng.random() < .2
    ops = [dict(at=0, op="reg", code=c, k=f"k{c}", on=slow) for c in (0x5200, 0x9700)] + [dict(at=10, op="start")]
    hosts = [h for h in IPPOOL if h != OWN]
    t, burst, stalled, idle_at, stopped = 500, [], False, len(ops), False
    werr = False

    def flush():
        nonlocal burst
        if burst:
            ops.append(dict(at=t, op="burst", list=burst))
        burst = []

    def calm():
        nonlocal t, stalled
        ops.append(dict(at=t, op="stall", on=False))
        t += 1000
        ops.append(dict(at=t, op="mark", k="calm"))
        stalled = False
    for e in hist:
        k = e["e"]
        if e["idle"]:
            flush()
            t += rng.choice([2, 1000, 100000])
            if not stalled:
                ops.append(dict(at=t - 1, op="quiet"))
            idle_at = len(ops)
        if k in ("poll", "app", "junk", "own"):
            b = dg.poll(rng.randrange(256)) if k == "poll" else packet(rng, rng.choice([0x5200, 0x9700])) if k == "app" \
                else rng.choice([dg.poll(), packet(rng, 0x9700)]) if k == "own" else garbage(rng)
            burst.append(dict(op="rx", hex=dg.hexs(b), **{"from": OWN if k == "own" else rng.choice(hosts)}))
        elif k == "readerror":
            burst.append(dict(op="rerr", n=1, a=rng.randrange(5)))
        elif k == "writeerror":
            flush()
            ops.append(dict(at=t, op="werr", n=1))
            werr = True
        elif k == "stall":
            flush()
            ops.append(dict(at=t, op="stall", on=True))
            stalled = True
        elif k == "resume":
            flush()
            calm()
            idle_at = len(ops)
        elif k == "stop":
            if stalled or e["steps"] == 0:
                flush()
                ops.append(dict(at=t, op="stop"))
            else:
                ops.insert(idle_at, dict(at=ops[idle_at - 1]["at"] if idle_at == len(ops) and not burst else t, op="stopat", n=e["steps"]))
                flush()
                t += rng.choice([0, 0, 1, 1000])
                ops.append(dict(at=t, op="stopjoin"))
            stopped = True
    flush()
    if stalled:
        if stopped:
            ops.append(dict(at=t + 1000, op="stall", on=False))
            t += 1000
        else:
            calm()
    if not stopped:
        ops.append(dict(at=t + 500, op="release"))
        ops.append(dict(at=t + 1000, op="quiet"))
    elif rng.random() < .4:
        ops += [dict(at=t + 20000, op="mark", k="calm"), dict(at=t + 20000, op="werr", n=0), dict(at=t + 20000, op="start"), rx(t + 21503, dg.poll(), [2, 0, 0, 7]),
                dict(at=t + 21600, op="quiet")]
    for a, b in zip(ops, ops[1:]):
        b["at"] = max(a["at"], b["at"])
    s = node(rng, f"h{i}", ops, ip=OWN)
    if rng.random() < .4:
        s["perturb"] = rng.choice([3, 8, 30])
    return s


def replayed(ctx, rng, n):
    """Scripts from Runtime.tla."""
    H = []
    for length, tempo in ((20, 6), (60, 3), (150, 2)):
        H += histories(ctx, (n + 2) // 3, length, tempo)
    return [rt_script(rng, i, h) for i, h in enumerate(H)]


# ---- C08 -------------------------------------------------------------------
def poll_script(rng, i):
    own = rng.choice([OWN, OWN, [2, 0, 0, 5]])
    hosts = [h for h in IPPOOL if h != own]
    ops, t = [dict(at=0, op="start")], 500
    P = lambda: dg.poll(rng.randrange(256), rng.randrange(256), rng.choice([14, 14, 15, 20]), bytes(rng.randrange(5)))

    def other():
        k = rng.randrange(5)
        if k == 0:
            return dg.hexs(P()), own
        if k == 1:
            return dg.hexs(garbage(rng)), rng.choice(hosts)
        if k == 2:
            return dg.hexs(packet(rng, rng.choice([o for o in OPS if o != 0x2000]))), rng.choice(hosts)
        if k == 3:
            return dg.hexs(P()[:13]), rng.choice(hosts)
        return dg.hexs(dg.poll(ver=rng.randrange(14))), rng.choice(hosts)
    stalled = False
    for _ in range(rng.randrange(4, 14)):
        t += rng.choice([1, 10, 1000, 50000, 3000000])
        k = rng.random()
        if k < .3:
            ops.append(rx(t, P(), rng.choice(hosts)))
        elif k < .7:
            n = rng.choice([2, 5, 9, 10, 11, 12, 21, 22, 33, 60, 150])
            lst = []
            same = rng.random() < .3 and (dg.hexs(P()), rng.choice(hosts))
            for _ in range(n):
                if same:
                    lst.append(dict(op="rx", hex=same[0], **{"from": same[1]}))
                elif rng.random() < .7:
                    lst.append(dict(op="rx", hex=dg.hexs(P()), **{"from": rng.choice(hosts)}))
                else:
                    h, f = other()
                    lst.append(dict(op="rx", hex=h, **{"from": f}))
            ops.append(dict(at=t, op="burst", list=lst))
        elif k < .8:
            h, f = other()
            ops.append(dict(at=t, op="rx", hex=h, **{"from": f}))
        elif k < .9 and not stalled:
            ops.append(dict(at=t, op="stall", on=True))
            stalled = True
            continue
        elif not stalled:
            ops.append(dict(at=t, op="werr", n=rng.randrange(1, 4)))
        if stalled and rng.random() < .4:
            t += rng.choice([1000, 2000000])
            ops.append(dict(at=t, op="stall", on=False))
            stalled = False
            t += 1000
            ops.append(dict(at=t, op="mark", k="calm"))
        if not stalled:
            t += 1
            ops.append(dict(at=t, op="quiet"))
    if stalled:
        ops.append(dict(at=t + 1000, op="stall", on=False))
        ops.append(dict(at=t + 2000, op="mark", k="calm"))
        t += 3000
    ops.append(dict(at=t + 100, op="quiet"))
    s = node(rng, f"p{i}", ops, ip=own)
    if rng.random() < .4:
        s["opts"] = [dict(o="bcast", ip=rng.choice([[10, 255, 255, 255], [255, 255, 255, 255]]), port=rng.choice([6454, 7000]))]
    if rng.random() < .3:
        s["perturb"] = rng.choice([5, 20])
    return s


def flood(rng, i, what):
    """One life with hundreds of datagrams of a kind."""
    own = rng.choice([OWN, [2, 0, 0, 5]])
    ops = [dict(at=0, op="reg", code=c, k=f"k{c}") for c in (0x5200, 0x9700)] + [dict(at=10, op="start")]
    t = 500
    hosts = [h for h in IPPOOL if h != own]
    for _ in range(rng.choice([4, 9])):
        n = rng.choice([1, 30, 130, 270])
        mk = lambda: dg.poll(rng.randrange(256)) if what == "poll" else packet(rng, rng.choice([0x5200, 0x9700]))
        ops.append(dict(at=t, op="burst", list=[dict(op="rx", hex=dg.hexs(mk() if rng.random() < .9 else garbage(rng)), **{"from": rng.choice(hosts)}) for _ in range(n)]))
        t += rng.choice([2, 1000, 60000011, 300000007])
        ops.append(dict(at=t - 1, op="quiet"))
    return node(rng, f"F{i}", ops, ip=own)


def c08(ctx):
    rng = random.Random(ctx.seed * 31 + 8)
    S = [poll_script(rng, i) for i in range(160 if ctx.quick else 3000)]
    S += [flood(rng, i, "poll") for i in range(6 if ctx.quick else 80)]
    S += replayed(ctx, rng, 60 if ctx.quick else 1200)
    for s in S:     # callbacks for other packets change nothing
        if rng.random() < .3:
            s["ops"] = [dict(at=0, op="reg", code=c, k=f"x{c}") for c in rng.sample(OPS[1:] + OTHER_OPS, rng.choice([1, 3]))] + s["ops"]
    rng.shuffle(S)
    shards(ctx, S, 8 if ctx.quick else 32)


# ---- C07 -------------------------------------------------------------------
def c07(ctx):
    rng = random.Random(ctx.seed * 31 + 7)
    q = 1 if ctx.quick else 12
    S = []
    for aim, num, hz, nn in (("poll", 40, 40000, 3), ("mix", 30, 40000, 9), ("churn", 20, 60000, 6)):
        for b in behaviours(ctx, num * q, aim, nn, G1, 40, hz, False):
            o = []
            if rng.random() < .4:
                o = [dict(o="bcast", ip=rng.choice([[10, 255, 255, 255], [255, 255, 255, 255]]), port=rng.choice([6454, 7000]))]
            S.append(script(rng, len(S), b, G1, fps=rng.choice(FPS), snaps=None, name=aim[0], opts=o))
    # bursts of polls, write errors, long silences
    for i in range(30 * q):
        t, ops = 700, [dict(at=0, op="start")]
        for _ in range(rng.randrange(3, 9)):
            t += rng.choice([3, 700000, 3000003, 2900001, 9000100])
            k = rng.random()
            if k < .6:
                n = rng.choice([1, 3, 11, 25, 60])
                ops.append(dict(at=t, op="burst", list=[dict(op="rx", hex=dg.hexs(dg.poll(rng.randrange(256))), **{"from": rng.choice(IPPOOL + [OWN])}) for _ in range(n)]))
            elif k < .75:
                ops.append(dict(at=t, op="werr", n=rng.randrange(1, 5)))
            elif k < .85:
                ops.append(rx(t, garbage(rng), rng.choice(IPPOOL)))
            else:
                ops.append(dict(at=t, op="stop"))
                t += rng.choice([0, 1, 400000, 3500000])
                ops.append(dict(at=t, op="start"))
            ops.append(dict(at=t + 1, op="quiet"))
        S.append(dict(id=f"b{i}", kind="ctrl", ip=OWN, name="c", ops=ops, perturb=rng.choice([0, 0, 10])))
    S += long_runs(rng, q)
    rng.shuffle(S)
    shards(ctx, S, 8 if ctx.quick else 32)


# ---- C10 -------------------------------------------------------------------
def cb_script(rng, i):
    own = rng.choice([OWN, [2, 0, 0, 5], [2, 0, 0, 5]])
    hosts = [h for h in IPPOOL if h != own]
    ops, t = [], 100
    codes = OPS + rng.sample(OTHER_OPS, 2)
    lab = 0

    def change(running):
        nonlocal lab
        c = rng.choice(codes)
        lab += 1
        if rng.random() < .75:
            ops.append(dict(at=t, op="reg", code=c, k=f"k{lab}", on=rng.random() < .25 and not running))
        else:
            ops.append(dict(at=t, op="dereg", code=c))
    for _ in range(rng.choice([0, 2, 6, 14, 25])):
        change(False)
    for life in range(rng.choice([1, 1, 2, 3])):
        t += 1000
        ops.append(dict(at=t, op="start"))
        for _ in range(rng.randrange(2, 9)):
            t += rng.choice([1, 3, 1000, 100000])
            k = rng.random()
            if k < .12:
                change(True)
            elif k < .5:
                ops.append(rx(t, packet(rng, rng.choice(OPS)), rng.choice(hosts + [own])))
            elif k < .9:
                n = rng.choice([2, 5, 11, 12, 30, 80])
                hot = rng.choice(OPS)
                lst = []
                if rng.random() < .2:
                    lst = [dict(op="rx", hex=dg.hexs(packet(rng, hot)), **{"from": rng.choice(hosts)})] * n
                    n = 0
                for _ in range(n):
                    op = hot if rng.random() < .6 else rng.choice(OPS)
                    b = packet(rng, op)
                    if rng.random() < .12:
                        b = mutate(rng, b)
                    lst.append(dict(op="rx", hex=dg.hexs(b), **{"from": rng.choice(hosts + [own]) if rng.random() < .3 else rng.choice(hosts)}))
                ops.append(dict(at=t, op="burst", list=lst))
            else:
                ops.append(dict(at=t, op="release"))
            t += 1
            ops.append(dict(at=t, op="quiet"))
        ops.append(dict(at=t + 5, op="release"))
        t += 1000
        ops.append(dict(at=t, op="stop"))
        t += 1000
        for _ in range(rng.choice([0, 1, 4])):
            change(False)
        if rng.random() < .3:
            ops.append(rx(t, packet(rng, rng.choice(OPS)), rng.choice(hosts)))
    s = node(rng, f"k{i}", ops, ip=own)
    if rng.random() < .4:
        s["perturb"] = rng.choice([4, 15])
    return s


def c10(ctx):
    rng = random.Random(ctx.seed * 31 + 10)
    S = [cb_script(rng, i) for i in range(160 if ctx.quick else 2400)]
    S += [flood(rng, i, "app") for i in range(6 if ctx.quick else 80)]
    S += replayed(ctx, rng, 60 if ctx.quick else 1200)
    rng.shuffle(S)
    shards(ctx, S, 8 if ctx.quick else 32)


# ---- C13 -------------------------------------------------------------------
LC = """SPECIFICATION Spec
INVARIANT Runs Sockets Result Reached Written
PROPERTY FailedStartIsNothing StopWhenDownIsNothing
CHECK_DEADLOCK FALSE
CONSTANT Depth = %d
CONSTANT Calls = {%s}
CONSTANT Labels = {"A", "B"}
"""
NODE_CALLS = ["start", "stop", "fail", "bad", "good", "regA", "regB", "dereg", "packet", "poll"]
CTRL_CALLS = ["start", "stop", "fail", "announce", "write", "wait"]


def sequences(ctx, name, calls, depth, sim=0):
    f = ctx.path(f"life-{name}-{depth}.beh")
    env = {"BEHAVIOURS": f}
    c = LC % (depth, ", ".join(f'"{x}"' for x in calls))
    if sim:
        rc, out = ctx.tlc("Lifecycle", c, f"Lifecycle-sim-{name}", 1, 300, ("-simulate", f"num={sim}", "-depth", str(depth + 2), "-seed", str(ctx.seed + 5)), env)
        if rc != 0:
            raise Broken("generator failed: " + tail(out))
    else:
        ctx.model("Lifecycle", c, f"Lifecycle-{name}", workers=1, env=env)
    seen = sorted({l for l in open(f) if l.strip()})
    return [json.loads(l) for l in seen]


def addr_opts(rng):
    """Addresses other than the defaults: they outlive failed and repeated Starts."""
    o = []
    if rng.random() < .4:
        ip, port = rng.choice([([127, 0, 0, 1], 6454), ([10, 1, 2, 3], 9999), ([], 7000)])
        o.append(dict(o="listen", ip=ip, port=port))
    if rng.random() < .4:
        ip, port = rng.choice([([255, 255, 255, 255], 6454), ([10, 255, 255, 255], 7000)])
        o.append(dict(o="bcast", ip=ip, port=port))
    return o


def life_node(rng, i, seq):
    own = OWN
    ops, t = [], 500
    sync = dg.head(0x5200) + b"\0\0"
    h = [2, 0, 0, 9]
    good = cfg(rng, own)
    for j, c in enumerate(seq):
        if not (j and seq[j - 1] == "stop" and c == "start" and rng.random() < .5):
            t += rng.choice([10, 3000])
        if c in ("start", "stop"):
            ops.append(dict(at=t, op=c))
            if not (c == "stop" and j + 1 < len(seq) and seq[j + 1] == "start") and rng.random() < .8:
                ops += [dict(at=t + 2, op="quiet"), rx(t + 3, dg.poll(), h), rx(t + 4, sync, h), dict(at=t + 6, op="quiet")]
                t += 7
        elif c == "fail":
            ops.append(dict(at=t, op="listenfail", n=1))
        elif c in ("bad", "good"):
            ops.append(dict(at=t, op="setcfg", cfg=cfg(rng, own, good=c == "good")))
        elif c.startswith("reg"):
            ops.append(dict(at=t, op="reg", code=0x5200, k=c[3:] + str(j)))
        elif c == "dereg":
            ops.append(dict(at=t, op="dereg", code=0x5200))
        elif c in ("packet", "poll"):
            ops += [rx(t, sync if c == "packet" else dg.poll(), h), dict(at=t + 2, op="quiet")]
            t += 3
    ops += [rx(t + 50, dg.poll(), h), rx(t + 51, sync, h), dict(at=t + 60, op="quiet")]
    return node(rng, f"l{i}", ops, ip=own, cfg=good, opts=addr_opts(rng))


def life_ctrl(rng, i, seq):
    ops, t, fr = [], 700, 0
    A, B = [2, 0, 0, 9], [2, 0, 0, 10]
    fps = rng.choice([1000, 40, 7])
    for j, c in enumerate(seq):
        if not (j and seq[j - 1] == "stop" and c == "start" and rng.random() < .5):
            t += rng.choice([100000, 1000300])
        if c in ("start", "stop"):
            ops.append(dict(at=t, op=c))
            if c == "stop" and rng.random() < .5:
                ops.append(dict(at=t + 5, op="write", a=1, frame=9000 + j))
            if not (c == "stop" and j + 1 < len(seq) and seq[j + 1] == "start") and rng.random() < .6:
                t += 1313
                ops.append(rx(t, dg.poll(), B))
                ops.append(dict(at=t + 14, op="snap"))
                ops.append(dict(at=t + 15, op="quiet"))
        elif c == "fail":
            ops.append(dict(at=t, op="listenfail", n=1))
        elif c == "announce":
            t += 371
            x = rng.choice([A, B])
            ops.append(rx(t, dg.reply(x, [1, 2] if x == A else [3], [5] if x == A else []), x))
            ops.append(dict(at=t + 60, op="snap"))
        elif c == "write":
            fr += 1
            t += 417
            ops.append(dict(at=t, op="write", a=rng.choice([1, 2, 3]), frame=fr))
        else:
            t += 3200000
            ops.append(dict(at=t, op="snap"))
    t += 300000
    ops.append(rx(t, dg.poll(), B))
    ops.append(dict(at=t + 4, op="quiet"))
    # ticks are counted from the last Start: no need to be off tick exactly, only at odd times
    for o in ops:
        o["at"] = o["at"] // 10 * 10 + 7 if o["op"] in ("rx", "write") else o["at"]
    for a, b in zip(ops, ops[1:]):
        b["at"] = max(a["at"], b["at"])
    return dict(id=f"m{i}", kind="ctrl", ip=OWN, name="c", ops=ops, opts=addr_opts(rng) + ([] if fps == 1000 else [dict(o="fps", v=fps)]))


def rounds_ctrl(rng, i):
    """Several lives, each ended in the middle of things and followed at once by the next."""
    ops, t, fr = [], 0, 0
    fps = rng.choice([1000, 40])
    hosts = [[2, 0, 0, k] for k in range(1, 8)]
    for life in range(rng.choice([2, 3, 4])):
        if rng.random() < .2:
            ops += [dict(at=t, op="listenfail", n=1), dict(at=t, op="start")]
        ops.append(dict(at=t, op="start"))
        born = t
        t += rng.choice([0, 307, 20707])
        ops.append(dict(at=t, op="snap"))
        for _ in range(rng.choice([0, 2, 5, 9])):
            t += rng.choice([107, 1013, 40017, 270011])
            k = rng.random()
            h = rng.choice(hosts)
            if k < .6:
                b = 16 * h[3] + 256 * life * rng.choice([0, 1])
                ops.append(rx(t, dg.reply(h, [b + x for x in rng.sample(range(16), rng.randrange(5))], [b + x for x in rng.sample(range(16), rng.randrange(4))]), h))
                ops.append(dict(at=t + 30, op="snap"))
            elif k < .8:
                fr += 1
                ops.append(dict(at=t, op="write", a=16 * h[3] + rng.randrange(16), frame=fr))
            else:
                ops.append(rx(t, dg.poll(), h))
                ops.append(dict(at=t + 20, op="quiet"))
        k = rng.random()
        if k < .3:
            t += 3100000
        elif k < .5:
            # nodes expire in this life, too
            for g in range((t - born) // 3000000 + 1, (t - born) // 3000000 + rng.choice([4, 5])):
                ops += [dict(at=born + 3000000 * g - 130, op="snap"), dict(at=born + 3000000 * g + 130, op="snap")]
            t = ops[-1]["at"] + 1000
        t += rng.choice([217, 1031])
        if rng.random() < .6:
            # polls still on their way
            ops.append(dict(at=t, op="burst", list=[dict(op="rx", hex=dg.hexs(dg.poll(rng.randrange(256))), **{"from": rng.choice(hosts)}) for _ in range(rng.choice([1, 8, 25, 60]))]))
        ops.append(dict(at=t, op="stop"))
        if rng.random() < .3:
            ops.append(dict(at=t, op="stop"))
        if rng.random() < .4:
            t += rng.choice([11, 1000011])
    ops.append(dict(at=t, op="start"))
    ops.append(dict(at=t + 40, op="quiet"))
    ops.append(dict(at=t + 60, op="snap"))
    ops.append(rx(t + 3200007, dg.poll(), hosts[0]))
    ops.append(dict(at=t + 3200107, op="quiet"))
    s = dict(id=f"rc{i}", kind="ctrl", ip=OWN, name="c", ops=ops, opts=addr_opts(rng) + ([] if fps == 1000 else [dict(o="fps", v=fps)]))
    s["perturb"] = rng.choice([0, 0, 5, 20])
    return s


def rounds_node(rng, i):
    ops, t = [], 0
    hosts = [[2, 0, 0, k] for k in range(1, 5)]
    sync = dg.head(0x5200) + b"\0\0"
    ops.append(dict(at=0, op="reg", code=0x5200, k="k0"))
    for life in range(rng.choice([2, 3, 5])):
        if rng.random() < .25:
            ops += rng.choice([[dict(at=t, op="listenfail", n=1), dict(at=t, op="start")],
                               [dict(at=t, op="setcfg", cfg=cfg(rng, OWN, good=False)), dict(at=t, op="start"), dict(at=t, op="setcfg", cfg=cfg(rng, OWN))]])
        ops.append(dict(at=t, op="start"))
        if rng.random() < .3:
            ops.append(dict(at=t, op="start"))
        t += rng.choice([0, 11, 1011])
        for _ in range(rng.randrange(4)):
            t += 100
            ops += [rx(t, rng.choice([dg.poll(), sync]), rng.choice(hosts)), dict(at=t + 50, op="quiet")]
        t += 100
        if rng.random() < .7:
            stall = rng.random() < .3
            if stall:
                ops.append(dict(at=t, op="stall", on=True))
            ops.append(dict(at=t, op="burst", list=[dict(op="rx", hex=dg.hexs(rng.choice([dg.poll(), dg.poll(3), sync, garbage(rng)])), **{"from": rng.choice(hosts)})
                                                    for _ in range(rng.choice([1, 8, 25, 60]))]))
            if stall:
                t += rng.choice([0, 1000])
        else:
            stall = False
        ops.append(dict(at=t, op="stop"))
        if stall:
            ops += [dict(at=t, op="stall", on=False), dict(at=t, op="mark", k="calm")]
        if rng.random() < .4:
            ops.append(rng.choice([dict(at=t, op="reg", code=0x5200, k=f"k{life + 1}"), dict(at=t, op="dereg", code=0x5200), dict(at=t, op="setcfg", cfg=cfg(rng, OWN)),
                                   dict(at=t, op="opt", opt=dict(o="bcast", ip=[10, 255, 255, 255], port=6454))]))
        if rng.random() < .4:
            t += rng.choice([11, 1000011])
    ops += [dict(at=t, op="start"), dict(at=t + 40, op="quiet"), rx(t + 100, dg.poll(), hosts[0]), rx(t + 101, sync, hosts[0]), dict(at=t + 200, op="quiet")]
    s = node(rng, f"rn{i}", ops, ip=OWN, opts=addr_opts(rng))
    s["perturb"] = rng.choice([0, 0, 5, 20])
    return s


def c13(ctx):
    rng = random.Random(ctx.seed * 31 + 13)
    ns = sequences(ctx, "node", NODE_CALLS, 4 if ctx.quick else 5)
    cs = sequences(ctx, "ctrl", CTRL_CALLS, 4 if ctx.quick else 6)
    if ctx.quick:
        busy = lambda q: "start" in q[:-1]
        ns, cs = [q for q in ns if busy(q)], [q for q in cs if busy(q)]
        ns, cs = rng.sample(ns, min(len(ns), 1100)), rng.sample(cs, min(len(cs), 400))
    else:
        ns, cs = rng.sample(ns, min(len(ns), 16000)), rng.sample(cs, min(len(cs), 6000))
    ns += sequences(ctx, "node-long", NODE_CALLS, 12, 200 if ctx.quick else 2000)
    cs += sequences(ctx, "ctrl-long", CTRL_CALLS, 12, 100 if ctx.quick else 1000)
    S = [life_node(rng, i, s) for i, s in enumerate(ns)] + [life_ctrl(rng, i, s) for i, s in enumerate(cs)]
    for i in range(120 if ctx.quick else 2500):
        S += [rounds_ctrl(rng, i), rounds_node(rng, i)]
    rng.shuffle(S)
    shards(ctx, S, 8 if ctx.quick else 48)


CHECKS = {"C07": with_models(lambda ctx: [lambda c: cmodel(c, "small"), lambda c: cmodel(c, "live")], c07), "C08": with_models(rtjobs(["node"], ["node4", "node-live"]), c08), "C10": with_models(rtjobs(["node"], ["node4", "node-cap2", "node-live"]), c10), "C13": c13}


# ---- C11 -------------------------------------------------------------------
def faults(rng, t, ctrl, hosts, quietly=False):
    """A stretch of hostile traffic and I/O faults from time t on; returns (ops, t)."""
    ops = []

    def junk():
        while True:
            b = garbage(rng)
            # several announcements at one instant are processed in any order: not judged here
            if not (ctrl and b[8:10] == b"\x00\x21" and len(b) >= 239):
                return b
    if rng.random() < .1:   # nothing but errors, for a long time
        for _ in range(rng.choice([60, 130])):
            t += rng.choice([500009, 900007])
            ops.append(dict(at=t, op="rerr", n=1, a=rng.randrange(5)))
    for _ in range(rng.randrange(3, 9)):
        t += rng.choice([1, 11, 1009, 30011, 200003])
        k = rng.random()
        if k < .25:
            ops.append(rx(t, junk(), rng.choice(hosts)))
        elif k < .5:
            lst = []
            for _ in range(rng.choice([3, 12, 40, 120])):
                if rng.random() < .15:
                    lst.append(dict(op="rerr", n=rng.randrange(1, 4), a=rng.randrange(5)))
                else:
                    lst.append(dict(op="rx", hex=dg.hexs(junk() if rng.random() < .8 else dg.poll()), **{"from": rng.choice(hosts)}))
            ops.append(dict(at=t, op="burst", list=lst))
        elif k < .7:
            ops.append(dict(at=t, op="rerr", n=rng.choice([1, 2, 5, 30, 100, 300]), a=rng.randrange(5)))
        elif k < .9:
            ops.append(dict(at=t, op="werr", n=rng.choice([1, 3, 10, 25, 300])))
        else:
            b = junk()
            ops.append(rx(t, b + bytes(rng.choice([1000, 4096, 6000])), rng.choice(hosts)))
    return ops, t


def weird(rng, ip):
    """Announcements at the edge: odd port counts, types and switches."""
    b = bytearray(dg.reply(ip, [1, 2, 3][:rng.randrange(4)], [4][:rng.randrange(2)], style=rng.choice([0, 0, 1])))
    k = rng.randrange(6)
    if k == 0:
        b[172:174] = struct.pack(">H", rng.choice([0, 5, 255, 256, 65535]))
    elif k == 1:
        b[174:178] = rng.randbytes(4)
    elif k == 2:
        b[186:194] = rng.randbytes(8)
    elif k == 3:
        b[18:20] = rng.randbytes(2)
    elif k == 4:
        b[26:108] = rng.randbytes(82)
    else:
        b[172:200] = rng.randbytes(28)
    return bytes(b)


def fault_ctrl(rng, i):
    fps = rng.choice([1000, 40, 44, 7])
    ops, t = [dict(at=0, op="start")], 0
    hosts = [h for h in IPPOOL]
    a, b = rng.sample(IPPOOL[:6], 2)
    m = [0x10, 0x11, 0x12, 0x13]
    big = []
    fr = 0

    def put(o):
        o["at"] = max(off_tick(o["at"], fps), ops[-1]["at"])
        ops.append(o)

    def work(t):
        """Ordinary use: everything has to function."""
        nonlocal fr
        put(rx(t + 101, dg.reply(a, m, [0x14]), a))
        put(rx(t + 301, dg.reply(b, [0x21], []), b))
        put(dict(at=t + 501, op="snap"))
        for x in rng.sample(m + [0x21], 3):
            fr += 1
            put(dict(at=t + 700 + fr, op="write", a=x, frame=fr))
        put(rx(t + 1203, dg.poll(), rng.choice(IPPOOL)))
        put(dict(at=t + 1303, op="quiet"))
        return t + 1400
    t = work(500)
    for _ in range(rng.choice([1, 2])):
        t += rng.choice([400000, 1700000])
        o, t = faults(rng, t, True, hosts)
        for x in o:
            put(x)
        t += 5000
        if rng.random() < .6:
            for _ in range(rng.randrange(1, 6)):
                t += rng.choice([3, 50003])
                ip = rng.choice([[0, 0, 0, 0], [255, 255, 255, 255], OWN, [9, 9, 9, 9], [9, 9, 9, 8], b])
                put(rx(t, weird(rng, ip), rng.choice(hosts)))
        if rng.random() < .5:
            # the network stalls between two housekeeping passes
            t = (t // 3000000 + 1) * 3000000 + 200700
            put(dict(at=t, op="stall", on=True))
            t += rng.choice([1000, 300000, 900000, 2000000])
            put(dict(at=t, op="burst", list=[dict(op="rx", hex=dg.hexs(dg.poll() if rng.random() < .6 else noise2(rng)), **{"from": rng.choice(hosts)})
                                             for _ in range(rng.choice([1, 15, 60]))]))
            t += rng.choice([1000, 100000])
            put(dict(at=t, op="stall", on=False))
            t += 300000
        else:
            t += 20000
        put(dict(at=t, op="werr", n=0))
        put(dict(at=t + 700000, op="mark", k="calm"))
        t = work(t + 700100)
    t += 3900000
    put(rx(t, dg.poll(), a))
    put(dict(at=t + 200, op="quiet"))
    put(dict(at=t + 300, op="snap"))
    s = dict(id=f"f{i}", kind="ctrl", ip=OWN, name="c", ops=ops, opts=[] if fps == 1000 else [dict(o="fps", v=fps)])
    if rng.random() < .3:
        s["perturb"] = rng.choice([5, 30])
    return s


def noise2(rng):
    """Junk that is no announcement."""
    while True:
        b = garbage(rng)
        if b[8:10] != b"\x00\x21":
            return b


def fault_node(rng, i):
    own = rng.choice([OWN, [2, 0, 0, 5]])
    hosts = [h for h in IPPOOL if h != own] + [own]
    ops, t = [], 100
    for j, c in enumerate(rng.sample(OPS, 5)):
        if c != 0x2000:
            ops.append(dict(at=t, op="reg", code=c, k=f"k{j}", on=rng.random() < .2))
    ops.append(dict(at=200, op="start"))
    t = 1000
    for _ in range(rng.choice([1, 2, 3])):
        o, t = faults(rng, t, False, hosts)
        ops += o
        if rng.random() < .4:
            t += 1000
            ops.append(dict(at=t, op="stall", on=True))
            t += rng.choice([10, 100000])
            ops.append(dict(at=t, op="burst", list=[dict(op="rx", hex=dg.hexs(rng.choice([dg.poll(), garbage(rng)])), **{"from": rng.choice(hosts)})
                                                    for _ in range(rng.choice([5, 25, 80]))]))
            t += 1000
            ops.append(dict(at=t, op="stall", on=False))
        t += 10000
        ops.append(dict(at=t, op="mark", k="calm"))
        for c in rng.sample(OPS, 6):
            t += 5
            ops.append(rx(t, packet(rng, c), rng.choice(hosts[:-1])))
        ops.append(rx(t + 3, dg.poll(), hosts[0]))
        ops.append(dict(at=t + 10, op="quiet"))
        t += 100
    s = node(rng, f"g{i}", ops, ip=own)
    if rng.random() < .3:
        s["perturb"] = rng.choice([5, 30])
    return s


def c11(ctx):
    rng = random.Random(ctx.seed * 31 + 11)
    n = 90 if ctx.quick else 1200
    S = [fault_ctrl(rng, i) for i in range(n)] + [fault_node(rng, i) for i in range(n)]
    S += replayed(ctx, rng, 90 if ctx.quick else 1500)
    rng.shuffle(S)
    shards(ctx, S, 8 if ctx.quick else 32)


# ---- C12 -------------------------------------------------------------------
def stop_script(rng, i):
    ctrl = rng.random() < .6
    mode = rng.choice(["at", "at", "at", "now", "stalled", "early", "slow"])
    ops, t = [], 0
    if ctrl:
        a, b = [2, 0, 0, 1], [2, 0, 0, 2]
        fps = rng.choice([1000, 1000, 40])
        ops.append(dict(at=0, op="start"))
        if mode == "early":
            ops.append(dict(at=rng.choice([0, 0, 1]), op="stop"))
        else:
            wide = [0x10 + k for k in range(4)]
            n = rng.choice([1, 4, 5]) if mode != "stalled" else rng.choice([4, 5, 8])
            t = 700
            for k in range(n):      # up to 32 addresses
                ip = [2, 0, 1, k]
                ops.append(rx(t, dg.reply(ip, [(0x10 * k) + j for j in range(rng.choice([2, 4]))], []), ip))
                t += 3
            t += 300000
            for k in range(rng.randrange(4)):
                ops.append(dict(at=t + k * 17, op="write", a=rng.choice([0, 1, 0x10, 0x999]), frame=k + 1))
            t += 600
            if mode == "stalled":
                t += rng.choice([0, 100000])
                ops.append(dict(at=t, op="stall", on=True))
                t += rng.choice([100, 1000, 300000, 1200000, 2000000])
                ann = rng.random() < .4
                ops.append(dict(at=t, op="burst", list=[dict(op="rx", hex=dg.hexs(dg.reply([2, 0, 1, 0], [0]) if ann else dg.poll()), **{"from": a}) for _ in range(rng.choice([0, 5, 30, 80]))]))
                t += 0 if ann else rng.choice([0, 1000, 10000])     # the registry may be locked: time stands still until Stop
                ops.append(dict(at=t, op="stop"))
                ops.append(dict(at=t + rng.choice([0, 1000]), op="write", a=0, frame=99))
                ops.append(dict(at=t + 2000, op="stall", on=False))
            else:
                if rng.random() < .3:
                    traffic = [dict(op="rx", hex=dg.hexs(dg.reply([2, 0, 3, k % 7], [0x200 + 16 * (k % 7)], [])), **{"from": b}) for k in range(rng.choice([12, 30, 90]))]
                else:
                    traffic = [dict(op="rx", hex=dg.hexs(rng.choice([dg.poll(), garbage(rng), dg.reply(b, [0x90])])), **{"from": b}) for _ in range(rng.choice([1, 8, 40]))]
                if mode == "at":
                    # at a scheduling point reached by the burst, by a frame tick or by the next poll
                    ops.append(dict(at=t, op="stopat", n=rng.choice([1, 2, 3, 4, 5, 7, 9, 12, 16, 22, 30, 45, 70])))
                    tick = rng.random() < .4
                    ops.append(dict(at=t, op="burst", list=traffic) if not tick else dict(at=t, op="write", a=0, frame=77))
                    ops.append(dict(at=t + rng.choice([0, 0, 2000, 300000]) if not tick else t + 3500000, op="stopjoin"))
                    t = ops[-1]["at"]
                else:
                    ops.append(dict(at=t, op="burst", list=traffic))
                    ops.append(dict(at=t + rng.choice([0, 0, 1, 400]), op="stop"))
                    t = ops[-1]["at"]
                if rng.random() < .7:
                    ops.append(dict(at=t + rng.choice([0, 5]), op="write", a=rng.choice([0, 1, 5]), frame=88))
                if rng.random() < .1:   # far more than any queue holds
                    ops += [dict(at=t + 6, op="write", a=rng.choice([0, 1, 5, 0x999]), frame=100 + k) for k in range(300)]
        s = dict(id=f"z{i}", kind="ctrl", ip=OWN, name="c", ops=ops, opts=[] if fps == 1000 else [dict(o="fps", v=fps)])
    else:
        slow = mode == "slow" or rng.random() < .3
        for c in (0x5200, 0x2000 if rng.random() < .2 else 0x9700):
            ops.append(dict(at=0, op="reg", code=c, k=f"k{c}", on=slow))
        ops.append(dict(at=10, op="start"))
        t = 10 if mode == "early" else 500
        if mode == "stalled":
            ops.append(dict(at=t, op="stall", on=True))
        n = rng.choice([0, 3, 12, 40, 100])
        B = dict(at=t, op="burst", list=[dict(op="rx", hex=dg.hexs(rng.choice([dg.poll(), dg.poll(), packet(rng, rng.choice(OPS)), garbage(rng)])),
                                             **{"from": [2, 0, 0, 7]}) for _ in range(n)])
        if mode == "at":
            ops.append(dict(at=t, op="stopat", n=rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 55])))
            ops.append(B)
            ops.append(dict(at=t + rng.choice([0, 1, 1000]), op="stopjoin"))
        else:
            ops.append(B)
            ops.append(dict(at=t + rng.choice([0, 0, 1, 1000]), op="stop"))
        t = ops[-1]["at"]
        if mode == "stalled":
            ops.append(dict(at=t + 1000, op="stall", on=False))
        s = node(rng, f"y{i}", ops, ip=OWN)
    if rng.random() < .25 and mode != "stalled":
        # and again
        s["ops"] += [dict(at=t + 20000, op="start"), rx(t + 21503, dg.poll(), [2, 0, 0, 7]), dict(at=t + 21600, op="quiet"),
                     dict(at=t + 22000, op="stop")]
    if rng.random() < .4:
        s["perturb"] = rng.choice([3, 8, 30])
    return s


def cbstop_script(rng, i):
    """A callback stops its own node."""
    ops = [dict(at=0, op="regstop", code=0x5200, k="s"), dict(at=0, op="reg", code=0x9700, k="k", on=rng.random() < .3), dict(at=10, op="start")]
    lst = [dict(op="rx", hex=dg.hexs(rng.choice([dg.poll(), packet(rng, 0x9700), packet(rng, 0x6000)])), **{"from": [2, 0, 0, 7]}) for _ in range(rng.choice([0, 3, 25]))]
    lst.insert(rng.randrange(len(lst) + 1), dict(op="rx", hex=dg.hexs(dg.head(0x5200) + b"\0\0"), **{"from": [2, 0, 0, 7]}))
    ops += [dict(at=500, op="burst", list=lst), dict(at=700, op="mark", k="-")]
    if rng.random() < .5:
        ops += [dict(at=20000, op="start"), rx(21503, dg.poll(), [2, 0, 0, 7]), dict(at=21600, op="quiet"), dict(at=22000, op="stop")]
    s = node(rng, f"x{i}", ops, ip=OWN)
    s["perturb"] = rng.choice([0, 3, 8])
    return s


def restart_script(rng, i):
    """Race detection: whatever the library left running after Stop conflicts with what the user does next."""
    ctrl = rng.random() < .4
    h = [2, 0, 0, 7]
    ops, t = [], 10
    if not ctrl:
        ops.append(dict(at=0, op="reg", code=0x9700, k="k"))
    for life in range(rng.choice([2, 3, 5])):
        ops.append(dict(at=t, op="start"))
        t += rng.choice([0, 1, 500, 3000000])
        good = [dg.poll(), dg.poll(), dg.reply([2, 0, 0, 8], [1, 2]), packet(rng, 0x9700), packet(rng, 0x6000), garbage(rng)]
        ops.append(dict(at=t, op="burst", list=[dict(op="rx", hex=dg.hexs(rng.choice(good)), **{"from": h}) for _ in range(rng.choice([1, 4, 12, 30]))]))
        t += rng.choice([0, 0, 1, 1000])
        ops.append(dict(at=t, op="stop"))
        if not ctrl:
            for _ in range(rng.choice([0, 1, 2])):
                c = rng.choice([0x9700, 0x6000])
                ops.append(dict(at=t, op="reg", code=c, k="k") if rng.random() < .6 else dict(at=t, op="dereg", code=c))
        elif rng.random() < .5:
            ops.append(dict(at=t, op="opt", opt=dict(o="bcast", ip=[10, 255, 255, 255], port=6454)))
    if ctrl:
        s = dict(id=f"q{i}", kind="ctrl", ip=OWN, name="c", ops=ops)
    else:
        s = node(rng, f"q{i}", ops, ip=OWN)
    return dict(s, quiet=True, perturb=rng.choice([0, 2, 4, 10]))


def c12(ctx):
    rng = random.Random(ctx.seed * 31 + 12)
    S = [stop_script(rng, i) for i in range(500 if ctx.quick else 8000)] + [cbstop_script(rng, i) for i in range(40 if ctx.quick else 400)]
    S += replayed(ctx, rng, 120 if ctx.quick else 3000)
    rng.shuffle(S)
    shards(ctx, S, 8 if ctx.quick else 32)
    R = [restart_script(rng, i) for i in range(160 if ctx.quick else 4000)]
    ctx.build(True)
    k = 8 if ctx.quick else 32
    ctx.parallel(lambda i: play(ctx, f"r{i}", R[i::k], race=True, monitor=None, env=dict(GORACE="exitcode=66 halt_on_error=1")), range(k))
    ctx.notes["race_scripts"] = len(R)


# ---- C20 -------------------------------------------------------------------
ADDRS = [([], 6454), ([], 7000), ([127, 0, 0, 1], 6454), ([10, 1, 2, 3], 9999), ([0, 0, 0, 0], 6454), ([10, 9, 8, 7], 1)]
BCASTS = [([255, 255, 255, 255], 6454), ([10, 255, 255, 255], 7000), ([2, 255, 255, 255], 6454), ([10, 9, 8, 7], 6454), ([2, 255, 255, 255], 1)]
GOODFPS = [1, 2, 3, 7, 10, 24, 25, 29, 30, 33, 40, 44, 50, 60, 100, 120, 333, 500, 999, 1000, 1001, 2000, 5000]
BADFPS = [0, -1, -1000, -2147483648, 1000000001, 2000000000, 1 << 40, (1 << 63) - 1, -(1 << 63)]


def opt_of(rng, kind):
    o = rng.choice(["bcast", "listen", "listenip"] + (["fps", "fps", "badfps"] if kind == "ctrl" else []))
    if o == "fps":
        return dict(o="fps", v=rng.choice(GOODFPS))
    if o == "badfps":
        return dict(o="fps", v=rng.choice(BADFPS))
    ip, port = rng.choice(BCASTS if o == "bcast" else ADDRS)
    return dict(o=o, ip=ip, port=port if o != "listenip" else 0)


def opt_script(rng, i, kind, opts, later, *lives):
    """A life under the given options; lives: further options, each set applied between a Stop and a Start."""
    own = rng.choice([OWN, OWN, [2, 255, 255, 255], []])
    hosts = [OWN, [2, 255, 255, 255], [10, 255, 255, 255], [10, 9, 8, 8], [127, 0, 0, 1], [2, 0, 0, 1]]
    ops, t0, before = [], 10, list(opts)
    for extra in (later,) + lives:
        for o in extra:
            ops.append(dict(at=t0, op="opt", opt=o))
        before += extra
        rate = [o["v"] for o in before if o["o"] == "fps" and 1 <= o["v"] <= 10**9]
        fps = rate[-1] if rate else 1000
        s0 = t0 + 10
        ops.append(dict(at=s0, op="start"))
        T = lambda x: s0 + off_tick(x, fps)
        if kind == "ctrl":
            a = [2, 0, 0, 1]
            ops.append(rx(T(1500), dg.reply(a, [1, 2], [3]), a))
            ops.append(dict(at=T(1700), op="snap"))
            t = 2000
            for k in range(8):
                t += rng.choice([300, 1100, 30500, 90300, 400500])
                ops.append(dict(at=T(t), op="write", a=rng.choice([1, 2]), frame=len(ops)))
            t += 200
            for j, h in enumerate(hosts):
                t += 1000
                ops.append(rx(T(t), dg.reply([3, 3, 3, j], [16 + j], []), h, port=rng.choice([6454, 6455, 1, 7000])))
                ops.append(rx(T(t + 200), dg.poll(), h, port=rng.choice([6454, 6455, 1, 7000])))
                ops.append(dict(at=T(t + 300), op="snap"))
            ops.append(dict(at=T(t + 400), op="quiet"))
            ops.append(dict(at=T(t + 3300000), op="quiet"))
        else:
            t = 500
            for h in hosts:
                t += 1000
                ops.append(rx(T(t), dg.poll(), h, port=rng.choice([6454, 6455, 1, 7000])))
                ops.append(rx(T(t + 200), dg.head(0x5200) + b"\0\0", h, port=rng.choice([6454, 6455, 1, 7000])))
            ops.append(dict(at=T(t + 400), op="quiet"))
        if len(lives):
            ops.append(dict(at=ops[-1]["at"] + 7, op="stop"))
        t0 = ops[-1]["at"] + rng.choice([10, 500000])
    if kind == "node":
        ops = [dict(at=0, op="reg", code=0x5200, k="sync")] + ops
    for x, y in zip(ops, ops[1:]):
        y["at"] = max(x["at"], y["at"])
    if kind == "ctrl":
        return dict(id=f"o{i}", kind=kind, ip=own, ip16=rng.random() < .4, name="c", opts=opts, ops=ops)
    s = node(rng, f"o{i}", ops, ip=own, opts=opts)
    s["ip16"] = rng.random() < .4
    return s


def fast_script(rng, i, fps):
    """Very high rates: time in nanoseconds."""
    iv = 10**9 / fps
    ops = [dict(at=0, op="start")]
    a = [2, 0, 0, 1]
    odd = lambda k: int(k * iv + iv / 2)
    ops.append(rx(odd(3), dg.reply(a, [1, 2], []), a))
    if iv >= 8:
        for k in range(6):
            ops.append(dict(at=odd(10 + k * rng.choice([1, 2, 9])), op="write", a=rng.choice([1, 2]), frame=k + 1))
    ops.append(dict(at=odd(300 if iv >= 8 else 2000), op="quiet"))
    ops.sort(key=lambda o: o["at"])
    return dict(id=f"h{i}", kind="ctrl", unit="ns", ip=OWN, name="c", opts=[dict(o="fps", v=fps)], ops=ops)


def c20(ctx):
    rng = random.Random(ctx.seed * 31 + 20)
    S = []
    for kind in ("ctrl", "node"):
        for i in range(90 if ctx.quick else 1500):
            n, m = rng.randrange(4), rng.choice([0, 0, 1, 2])
            S.append(opt_script(rng, f"{kind[0]}{i}", kind, [opt_of(rng, kind) for _ in range(n)], [opt_of(rng, kind) for _ in range(m)]))
        for i in range(40 if ctx.quick else 600):
            some = lambda: [opt_of(rng, kind) for _ in range(rng.randrange(3))]
            S.append(opt_script(rng, f"l{kind[0]}{i}", kind, some(), some(), *[some() for _ in range(rng.choice([1, 2]))]))
    # every rate class, and each bad rate both ways
    for i, v in enumerate(GOODFPS):
        S.append(opt_script(rng, f"r{i}", "ctrl", [dict(o="fps", v=v)], []))
    for i, v in enumerate(BADFPS):
        S.append(opt_script(rng, f"x{i}", "ctrl", [dict(o="fps", v=v)], []))
        S.append(opt_script(rng, f"w{i}", "ctrl", [dict(o="fps", v=rng.choice(GOODFPS))], [dict(o="fps", v=v)]))
    for i, v in enumerate([10**4, 12345, 10**5, 10**6, 1234567, 10**7, 10**8, 10**9, 999999999, 500000000, 300000000]):
        S.append(fast_script(rng, i, v))
    rng.shuffle(S)
    shards(ctx, S, 8 if ctx.quick else 32)


CHECKS.update({"C11": with_models(rtjobs(["node", "ctrl"], ["node4", "ctrl-full", "node-live", "ctrl-live"]), c11),
               "C12": with_models(rtjobs(["node", "ctrl"], ["node4", "node-cap2", "ctrl-full", "node-stop-live", "ctrl-stop-live"]), c12), "C20": c20})
