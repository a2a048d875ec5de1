"""C18 (and C02 under concurrency): concurrent callers against the register semantics of Atomic.tla."""
import random
from . import dgram as dg
from .nodes import rx, garbage
from .world import OWN, IPPOOL, shards, play, CHECKS as WORLD


def calls(rng, addrs, nid, most=6):
    g = rng.choice([2, 2, 3, 4, 8])
    out = []
    for _ in range(g):
        own = rng.choice(addrs)
        seq = []
        for _ in range(rng.randrange(1, most)):
            nid[0] += 1
            seq.append(dict(a=own if rng.random() < .7 else rng.choice(addrs), frame=nid[0]))
        out.append(seq)
    return out


def judged(rng, i):
    """Callers, frame ticks and re-announcements of the written node at the same instants."""
    fps = rng.choice([1000, 1000, 500, 100, 50, 40, 25, 10])
    iv = 1000000 // fps
    A, B, C = [2, 0, 0, 1], [2, 0, 0, 2], [2, 0, 0, 3]
    addrs = rng.choice([[1], [1, 2], [1, 2, 3, 4]])
    ops = [dict(at=0, op="start"), rx(300, dg.reply(A, addrs, []), A)]
    t, nid = 2 * iv + 300000 // iv * iv, [0]
    for _ in range(rng.randrange(4, 12)):
        t += iv * rng.choice([1, 1, 2, 3, 5])
        if rng.random() < .15:
            t = (t // 3000000 + 1) * 3000000          # housekeeping, poll and frame tick together
        if rng.random() < .1:
            t += 137                                   # between two ticks
        k = rng.random()
        if k < .35:
            again = addrs + ([15] if rng.random() < .5 else [])
            again = again[:4]
            if not set(addrs) <= set(again):
                again = addrs
            n = rng.choice([1, 1, 3, 8])
            ops.append(dict(at=t, op="burst", list=[dict(op="rx", hex=dg.hexs(dg.reply(A, again, [])), **{"from": A}) for _ in range(n)]))
        elif k < .55:
            ops.append(rx(t, dg.reply(B, [0x20 + rng.randrange(16)], [0x21]), B))
        ops.append(dict(at=t, op="par", calls=calls(rng, addrs, nid)))
        if t % 1000000 < 300:
            t = t // iv * iv
        # the written node stays known
        if rng.random() < .5:
            ops.append(rx(t + rng.choice([0, 1, iv // 2]), dg.reply(A, addrs, []), A))
        if rng.random() < .25:
            for a in addrs:        # every address written, everybody done
                nid[0] += 1
                ops.append(dict(at=t, op="par", calls=[[dict(a=a, frame=nid[0])]]))
            t += 250000 + 3 * iv
            ops.append(dict(at=t, op="mark", k="settled"))
        ops.sort(key=lambda o: o["at"])
    t += 250000 + 3 * iv
    ops.append(dict(at=t // iv * iv + iv // 2, op="mark", k="settled"))
    # known for the whole script
    last = 0
    keep = []
    for x in range(2000100, t, 2500000):
        keep.append(rx(x, dg.reply(A, addrs, []), A))
    ops = sorted(ops + keep, key=lambda o: o["at"])
    s = dict(id=f"a{i}", kind="ctrl", ip=OWN, name="c", ops=ops, opts=[] if fps == 1000 else [dict(o="fps", v=fps)], hdr=dict(iv=iv))
    if rng.random() < .7:
        s["perturb"] = rng.choice([2, 3, 5, 12])
    if rng.random() < .2:
        s["ops"].insert(1, dict(at=0, op="slownet", n=rng.choice([5, 20, 100])))
    return s


def racing(rng, i):
    """Everything at once: only data races, crashes and callers blocked for ever count."""
    nodes = [[2, 0, 1, k] for k in range(4)]
    ops, t, nid = [dict(at=0, op="start")], 500, [0]

    def ann():
        k = rng.randrange(4)
        outs = rng.sample(range(16), rng.randrange(5))
        return dict(op="rx", hex=dg.hexs(dg.reply(nodes[k], [16 * k + o for o in outs], [16 * k + o for o in rng.sample(range(16), rng.randrange(3))],
                                                  style=rng.choice([0, 0, 1]))), **{"from": nodes[k]})
    for _ in range(rng.randrange(6, 16)):
        t += rng.choice([1, 250, 1000, 1000, 250000, 3000000, 7100000])
        if rng.random() < .6:
            t = t // 1000 * 1000
        n = rng.choice([1, 3, 12, 30])
        lst = [ann() if rng.random() < .7 else dict(op="rx", hex=dg.hexs(rng.choice([dg.poll(), garbage(rng)])), **{"from": [2, 0, 0, 9]}) for _ in range(n)]
        ops.append(dict(at=t, op="burst", list=lst))
        ops.append(dict(at=t, op="par", calls=calls(rng, [rng.randrange(64) for _ in range(6)], nid, 12)))
    for _ in range(rng.choice([0, 0, 1, 2])):
        # callers do not know that the controller is stopped and started again
        t += 10
        ops.append(dict(at=t, op="par", on=True, calls=calls(rng, [1, 2], nid, 30)))
        ops.append(dict(at=t, op="stop"))
        ops.append(dict(at=t, op="start"))
        ops.append(dict(at=t, op="burst", list=[ann() for _ in range(5)]))
        ops.append(dict(at=t + 1000, op="parjoin"))
        t += 1000
    return dict(id=f"r{i}", kind="ctrl", ip=OWN, name="c", ops=ops, quiet=True, perturb=rng.choice([0, 2, 4, 10]), hdr=dict(iv=1000))


def c18(ctx):
    rng = random.Random(ctx.seed * 31 + 18)
    n = 160 if ctx.quick else 3000
    S = [judged(rng, i) for i in range(n)]
    R = [racing(rng, i) for i in range(120 if ctx.quick else 3000)]
    ctx.build()
    ctx.build(True)
    shards(ctx, S, 8 if ctx.quick else 32, monitor="Atomic")
    env = dict(GORACE="exitcode=66 halt_on_error=1")
    k = 8 if ctx.quick else 32
    parts = [R[i::k] for i in range(k)]
    ctx.parallel(lambda i: play(ctx, f"r{i}", parts[i], race=True, monitor="Atomic", env=env), range(k))
    ctx.notes["race_scripts"] = len(R)


def c02(ctx):
    WORLD["C02"](ctx)
    rng = random.Random(ctx.seed * 31 + 2)
    S = [judged(rng, i) for i in range(60 if ctx.quick else 1000)]
    k = 8 if ctx.quick else 32
    ctx.parallel(lambda i: play(ctx, f"c{i}", S[i::k], monitor="Atomic"), range(k))


CHECKS = {"C18": c18, "C02": c02}
