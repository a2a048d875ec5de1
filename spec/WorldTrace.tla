---------------------------- MODULE WorldTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded runs of real nodes and controllers with         *)
(* Node.tla and Controller.tla.  The trace is a sequence of runs; times    *)
(* are in microseconds (or nanoseconds) of virtual time.  Each step takes  *)
(* one event, checks it against the state of the specification and moves   *)
(* the state along.  fails: set of <<property, clause>>.                   *)
(***************************************************************************)
EXTENDS Controller, Node, Json, IOUtils

CONSTANT Property
Trace == ndJsonDeserialize(IOEnv.TRACE)
CatFile == ndJsonDeserialize(IOEnv.CAT)
DumpFile == ndJsonDeserialize(IOEnv.DUMP)

\* what each datagram of the run is; the configuration for announcements
\* (TLCEval: evaluate now, not at every use)
Classify(b) ==
  IF Accept(b)
  THEN LET ty == TypeOf(b)  f == TLCEval(Fields(ty, b)) IN
       [ok |-> TRUE, type |-> ty, f |-> f, cfg |-> IF ty = "ArtPollReplyPacket" THEN TLCEval(ToConfig(f)) ELSE << >>]
  ELSE [ok |-> FALSE, type |-> "", f |-> << >>, cfg |-> << >>]
ClassifyAll(m) == TLCEval([ i \in 1..Len(m) |-> Classify(m[i].b) ])
Cat == TLCGet(1)
Bytes(i) == TLCGet(3)[i].b
Dump(i) == TLCGet(4)[i]

SameFields(ty, f, g) == \A n \in FieldNames(ty) : n \in DOMAIN f /\ f[n] = g[n]
IsDump(d, i) == /\ Cat[i].ok /\ Dump(d).type = Cat[i].type
                /\ SameFields(Cat[i].type, Dump(d).f, Cat[i].f)

\* (TLC takes every identifier of the name of a variable for the variable and then no longer
\* evaluates definitions that use it only once: these names occur nowhere else.)
VARIABLES ln, wd, fails
vars == <<ln, wd, fails>>

F(p, cl, ok) == IF ok THEN {} ELSE {<<p, cl>>}

------------------------------------------------------------------------------
Big == 2000000000
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

\* lengths of time in the unit of the run
Units(e) == IF e.unit = "ns"
  THEN [force |-> 250000000, poll |-> Big, stale |-> Big, seqmax |-> 255, sec |-> 1000000000, slack |-> 2, tol |-> 100000]
  ELSE [force |-> 250000, poll |-> 3000000, stale |-> 7000000, seqmax |-> 255, sec |-> 1000000, slack |-> 2, tol |-> 10000]
IntervalOf(n, k) == k.sec \div n.fps                     \* rounded down
LongInterval(n, k) == (k.sec + n.fps - 1) \div n.fps     \* rounded up

Idle == [s |-> "", kind |-> "none"]
NoWrite == [a |-> -1, frame |-> -1]     \* no SendDMXToAddress call in progress

Begin(e) ==
  LET k == Units(e) IN
  [ s |-> e.s, kind |-> e.kind, k |-> k, n |-> ApplyAll(New(e.ip, e.cfg), e.opts), c |-> Empty,
    t0 |-> 0, gcs |-> 0, polls |-> 0, owedAt |-> 0, stopping |-> FALSE, starting |-> "no", calm |-> TRUE, lastT |-> 0,
    since |-> << >>, wrote |-> << >>, given |-> << >>, dg |-> << >>, idle |-> {}, taint |-> {}, taintIn |-> {},
    open |-> 0, pre |-> FALSE, pend |-> NoWrite, reply |-> << >> ]

Timed(x) == x.n.up /\ ~x.stopping /\ x.calm

------------------------------------------------------------------------------
(* C02: when the next datagram for a routed address is due at the latest     *)
DueTime(x, a) ==
  LET b == x.c.nodes[x.c.out[a]].buf[a]
      iv == LongInterval(x.n, x.k)
      keep == IF b.last = Never THEN x.since[a] + iv ELSE MaxI(b.last + x.k.force, x.since[a]) + iv
  IN IF b.fresh /\ a \in DOMAIN x.wrote THEN MinI(x.wrote[a] + iv, keep) ELSE keep

Deadlines(x, t) ==
  IF ~Timed(x) \/ x.kind # "ctrl" THEN {}
  ELSE F("C02", "datagram missing", \A a \in DOMAIN x.c.out \ x.taint : DueTime(x, a) + x.k.slack >= t) \cup
       F("C07", "poll missing", x.k.poll = Big \/ x.t0 + x.polls * x.k.poll + x.k.tol >= t) \cup
       F("C07", "poll reply missing", x.n.owed = 0 \/ x.owedAt + x.k.tol >= t)

\* housekeeping passes that happened before time t
GcTime(x) == x.t0 + (x.gcs + 1) * x.k.poll
Forget(x, d) ==   \* registry changed to d: forget times of addresses no longer routed
  [x EXCEPT !.c = d,
            !.since = Restrict(@, DOMAIN @ \cap DOMAIN d.out),
            !.wrote = Restrict(@, DOMAIN @ \cap DOMAIN d.out),
            !.idle = { p \in @ : p[1] \in Known(d) },
            !.taint = { a \in @ : Announcers(d, a) # {} },
            !.taintIn = { a \in @ : InAnnouncers(d, a) # {} }]
RECURSIVE Advance(_, _)
Advance(x, t) ==
  IF x.kind = "ctrl" /\ x.n.up /\ x.k.poll # Big /\ GcTime(x) < t
  THEN LET g == GcTime(x)
           r == Advance([Forget(x, Gc(x.c, g, x.k)) EXCEPT !.gcs = @ + 1], t)
       IN [x |-> r.x, f |-> Deadlines(x, g) \cup r.f]
  ELSE [x |-> x, f |-> Deadlines(x, t)]

------------------------------------------------------------------------------
(* An announcement is processed.                                             *)
Relevant(cfg) == cfg.style = 0 \/ (cfg.style = 1 /\ cfg.outputs # << >>)

Announced(x, i, t) ==
  LET cfg == Cat[i].cfg
      ip == cfg.ip  outs == OutAddrs(cfg)  ins == InAddrs(cfg)
      d0 == Announce(x.c, ip, outs, ins, i, t)
      bad == (x.taint \cup Collisions(d0)) \cap AllOuts(d0)
      clean == { a \in bad \cap outs : Announcers(d0, a) = {ip} }
      badIn == (x.taintIn \cup InCollisions(d0)) \cap AllIns(d0)
      cleanIn == { a \in badIn \cap ins : InAnnouncers(d0, a) = {ip} }
      \* after a collision nobody knows what the node shows there
      d == [d0 EXCEPT !.nodes[ip].buf = [ a \in DOMAIN @ |->
                IF a \in clean THEN [frame |-> -2, fresh |-> FALSE, last |-> t] ELSE @[a] ]]
      y == Forget(x, d)
      newly == { a \in DOMAIN d.out : a \notin DOMAIN x.c.out \/ x.c.out[a] # d.out[a] \/ a \in clean }
  IN [y EXCEPT !.since = Over(@, Const(newly, t)),
               !.wrote = Without(@, newly),
               !.taint = bad \ clean, !.taintIn = badIn \ cleanIn]

------------------------------------------------------------------------------
(* Events                                                                    *)
R(x, f) == [x |-> x, f |-> f]

OnRx(x, e) ==
  LET p == Cat[e.c]
      n == Received(x.n, p, e.c, e.from)
      y == [x EXCEPT !.n = n, !.owedAt = IF x.n.owed = 0 THEN e.t ELSE @]
  IN IF x.kind = "ctrl" /\ x.n.up /\ p.ok /\ e.from # x.n.own /\ p.type = "ArtPollReplyPacket" /\ Relevant(p.cfg)
     THEN R(Announced(y, e.c, e.t), {}) ELSE R(y, {})

PollBytes == Encode("ArtPollPacket", [ZeroPacket("ArtPollPacket") EXCEPT !.TalkToMe = <<2>>, !.Priority = <<0>>])

OnTx(x, e) ==
  LET b == Bytes(e.c)
      P == IF x.kind = "ctrl" THEN "C07" ELSE "C08"
      op == IF Len(b) >= 10 THEN LE(b, 8) ELSE 0
      dest == SameIP(e.to, x.n.bcast.ip) /\ e.port = x.n.bcast.port
      due == x.t0 + x.polls * x.k.poll
  IN IF ~x.n.up
     THEN R(x, F("C12", "datagram after Stop", ~e.ok) \cup F("C13", "datagram while not running", ~e.ok))
     ELSE IF op = OpPoll /\ x.kind = "ctrl"
     THEN R([x EXCEPT !.polls = @ + 1, !.n.owed = @ + 1, !.owedAt = IF x.n.owed = 0 THEN e.t ELSE @],
            F("C07", "poll content", b = TLCGet(2)) \cup F("C07", "poll destination", dest) \cup F("C20", "broadcast address", dest) \cup
            (IF Timed(x) THEN F("C07", "poll time", due <= e.t /\ e.t <= due + x.k.tol)
             ELSE F("C07", "poll too early", x.stopping \/ due <= e.t)))
     ELSE IF op = OpReply
     THEN R([x EXCEPT !.n.owed = IF @ > 0 THEN @ - 1 ELSE 0],
            F(P, "reply not asked for", x.n.owed > 0) \cup F(P, "reply content", b = x.reply) \cup
            F(P, "reply destination", dest) \cup F("C20", "broadcast address", dest))
     ELSE R(x, F(P, "unexpected datagram", FALSE) \cup (IF op = OpOf.ArtDMXPacket THEN F("C01", "DMX datagram of wrong form", FALSE) ELSE {}))

\* a frame went to one of the nodes that collide on a
Unsure(c, a) ==
  [c EXCEPT !.nodes = [ ip \in DOMAIN @ |->
     IF a \in DOMAIN @[ip].buf THEN [@[ip] EXCEPT !.buf[a].frame = -2] ELSE @[ip] ]]

\* SendDMXToAddress takes effect
Wrote(x, t) ==
  LET a == x.pend.a  fr == x.pend.frame  y == [x EXCEPT !.pend = NoWrite] IN
  IF a = -1 \/ ~x.n.up THEN y
  ELSE [y EXCEPT !.c = IF a \in x.taint THEN Unsure(@, a) ELSE Write(@, a, fr),
                 !.idle = { p \in @ : p[2] # a },
                 !.given = Over(@, a :> (IF a \in DOMAIN @ THEN @[a] ELSE {}) \cup {fr}),
                 !.wrote = IF a \in DOMAIN x.c.out /\ a \notin DOMAIN @ THEN Over(@, a :> t) ELSE @]

DmxHead(seq, a) == ArtNetID \o <<0, 80, 0, 14, seq, 0, a % 256, a \div 256, 2, 0>>

\* a call in progress may have taken effect already
TakesPending(x, e) == e.h[15] + 256 * e.h[16] = x.pend.a /\ e.frame = x.pend.frame
OnDmx(x0, e) ==
  LET x == IF TakesPending(x0, e) THEN Wrote(x0, e.t) ELSE x0 IN
  IF ~x.n.up
  THEN R(x, F("C12", "datagram after Stop", ~e.ok) \cup F("C13", "datagram while not running", ~e.ok))
  ELSE IF x.kind # "ctrl" THEN R(x, F("C08", "unexpected datagram", FALSE))
  ELSE
  LET a == e.h[15] + 256 * e.h[16]
      ip == e.to
      known == ip \in Known(x.c)
      lists == known /\ a \in x.c.nodes[ip].outs
      routed == lists /\ (a \in x.taint \/ (a \in DOMAIN x.c.out /\ x.c.out[a] = ip))
      b == x.c.nodes[ip].buf[a]
      seq == NextSeq(x.c.nodes[ip].seq, x.k)
      pr == <<ip, a>>
      gap == e.t - x.dg[pr]
      \* a datagram with an old frame does not deliver what was written
      stale == lists /\ a \notin x.taint /\ b.frame # -2 /\ e.frame # b.frame /\ b.fresh
      y == [x EXCEPT !.dg = Over(@, pr :> e.t), !.idle = @ \cup {pr},
                     !.wrote = IF lists /\ ~stale THEN Without(@, {a}) ELSE @,
                     !.c = IF lists THEN [Sent(@, ip, a, e.t, x.k) EXCEPT !.nodes[ip].buf[a].fresh = stale]
                           ELSE IF known THEN [@ EXCEPT !.nodes[ip].seq = e.h[13]] ELSE @]
  IN R(y,
    F("C01", "destination is a known node", known) \cup
    F("C01", "destination announces the address", known => lists) \cup
    F("C01", "destination is routed", lists => routed) \cup
    F("C01", "port 6454", e.port = ArtNetPort) \cup
    F("C01", "form of the datagram", e.h = DmxHead(e.h[13], a)) \cup
    (IF lists THEN
       F("C01", "frame", IF a \in x.taint \/ b.frame = -2
                         THEN e.frame = 0 \/ (a \in DOMAIN x.given /\ e.frame \in x.given[a])
                         ELSE e.frame = b.frame)
     ELSE {}) \cup
    F("C04", "sequence number 0", e.h[13] # 0) \cup
    (IF known THEN F("C04", "sequence", e.h[13] = seq) ELSE {}) \cup
    (IF pr \in DOMAIN x.dg /\ Timed(x) THEN
       F("C03", "frame rate", gap >= IntervalOf(x.n, x.k) - x.k.slack) \cup
       F("C03", "resent too early", pr \in x.idle => gap >= x.k.force - x.k.slack)
     ELSE {}))

OnCb(x, e) ==
  LET hits(b) == { p \in DOMAIN b : p[1] = e.k /\ IsDump(e.d, p[2]) } IN
  IF hits(x.n.exp) # {} THEN R([x EXCEPT !.n.exp = Drop(@, CHOOSE p \in hits(x.n.exp) : TRUE)], {})
  ELSE IF hits(x.n.late) # {} THEN R([x EXCEPT !.n.late = Drop(@, CHOOSE p \in hits(x.n.late) : TRUE)], {})
  ELSE R(x, F("C10", "callback without datagram", FALSE))

OnQuiet(x, e) ==
  IF ~Timed(x) THEN R(x, {})
  ELSE R(x, F(IF x.kind = "ctrl" THEN "C07" ELSE "C08", "poll not answered", x.n.owed = 0) \cup
            F("C10", "callback missing", DOMAIN x.n.exp = {}))

\* ---- life cycle -----------------------------------------------------------
\* The node counts as started from the moment its socket is there: the controller's first poll
\* may leave before Start returns.
Up(x, t) ==
  [x EXCEPT !.n = Started(@), !.c = Empty, !.t0 = t, !.gcs = 0, !.polls = 0, !.stopping = FALSE,
            !.reply = TLCEval(ReplyBytes(x.n.cfg)),
            !.since = << >>, !.wrote = << >>, !.given = << >>, !.dg = << >>, !.idle = {}, !.taint = {}, !.taintIn = {}]

OnListen(x, e) ==
  LET y == [x EXCEPT !.starting = IF e.ok THEN "open" ELSE "failed", !.open = IF e.ok THEN @ + 1 ELSE @] IN
  R(IF e.ok /\ ~x.n.up THEN Up(y, e.t) ELSE y,
    F("C20", "listen address", SameIP(e.ip, x.n.listen.ip) /\ e.port = x.n.listen.port) \cup
    F("C13", "listens once per Start", x.starting = "called") \cup
    F("C19", "no socket for a refused configuration", Startable(x.n.cfg)) \cup
    F("C13", "no socket for a refused configuration", Startable(x.n.cfg)) \cup
    F("C13", "no socket while running", ~x.pre))

OnStartRet(x, e) ==
  LET want == ~x.pre /\ Startable(x.n.cfg) /\ x.starting # "failed"
      right == e.ok = want /\ (e.ok => x.starting = "open") IN
  R([x EXCEPT !.starting = "no"],
    F("C13", "Start result", right) \cup
    (IF x.pre THEN F("C13", "running socket kept", x.open = 1)
     ELSE F("C19", "Start result", right) \cup F("C13", "socket after a failed Start", e.ok \/ x.open = 0)))

OnStopRet(x, e) ==
  R([x EXCEPT !.n = Stopped(@), !.c = Empty, !.stopping = FALSE, !.open = e.open, !.idle = {}, !.wrote = << >>, !.since = << >>,
              !.taint = {}, !.taintIn = {}],
    F("C12", "socket closed by Stop", e.open = 0))

\* ---- snapshots ------------------------------------------------------------
CfgEq(r, q) == \A m \in DOMAIN q : m \in DOMAIN r /\ r[m] = q[m]
Routes(s, nodes) == { <<s[i][1], IF s[i][2] = 0 THEN << >> ELSE nodes[s[i][2]].ip>> : i \in 1..Len(s) }
OnSnap(x, e) ==
  LET out == Routes(e.out, e.nodes)  in == Routes(e.in, e.nodes)
      ips == { e.nodes[i].ip : i \in 1..Len(e.nodes) }
      known == Known(x.c)
      nodeOf(ip) == e.nodes[CHOOSE i \in 1..Len(e.nodes) : e.nodes[i].ip = ip]
  IN IF ~x.n.up \/ x.stopping THEN R(x, {})
     ELSE R(x,
       F("C05", "known nodes", ips = known) \cup
       F("C05", "listed once", Len(e.nodes) = Cardinality(ips)) \cup
       F("C05", "latest configuration", \A ip \in ips \cap known : CfgEq(nodeOf(ip), Cat[x.c.nodes[ip].info].cfg)) \cup
       F("C06", "output routes", { r \in out : r[1] \notin x.taint } = { <<a, x.c.out[a]>> : a \in DOMAIN x.c.out \ x.taint }) \cup
       F("C06", "input routes", { r \in in : r[1] \notin x.taintIn } = { <<a, x.c.in[a]>> : a \in DOMAIN x.c.in \ x.taintIn }) \cup
       F("C06", "stray output route", \A r \in out : r[2] \in known /\ r[1] \in x.c.nodes[r[2]].outs) \cup
       F("C06", "stray input route", \A r \in in : r[2] \in known /\ r[1] \in x.c.nodes[r[2]].ins))

\* the network behaves again: timing counts from here on
Calm(x, t) ==
  [x EXCEPT !.calm = TRUE, !.wrote = << >>, !.idle = {}, !.dg = << >>,
            !.since = Const(DOMAIN x.c.out, t + x.k.force),
            !.polls = IF x.k.poll = Big THEN @ ELSE (t - x.t0) \div x.k.poll + 1]

Handle(x, e) ==
  CASE e.ev = "rx" -> OnRx(x, e)
    [] e.ev = "tx" -> OnTx(x, e)
    [] e.ev = "dmx" -> OnDmx(x, e)
    [] e.ev = "write_call" -> R([x EXCEPT !.pend = [a |-> e.a, frame |-> e.frame]], {})
    [] e.ev = "write_ret" -> R(Wrote(x, e.t), {})
    [] e.ev = "cb" -> OnCb(x, e)
    [] e.ev = "quiet" -> OnQuiet(x, e)
    [] e.ev = "snap" -> OnSnap(x, e)
    [] e.ev = "listen" -> OnListen(x, e)
    [] e.ev = "close" -> R([x EXCEPT !.open = @ - 1], F("C13", "socket closed without Stop", x.stopping))
    [] e.ev = "start_call" -> R([x EXCEPT !.starting = "called", !.pre = x.n.up], {})
    [] e.ev = "start_ret" -> OnStartRet(x, e)
    [] e.ev = "stop_call" -> R([x EXCEPT !.stopping = TRUE], {})
    [] e.ev = "stop_ret" -> OnStopRet(x, e)
    [] e.ev = "opt" -> R([x EXCEPT !.n = Apply(@, e)], F("C20", "option result", e.ok = OptOK(e)))
    [] e.ev = "reg" -> R([x EXCEPT !.n = Register(@, e.code, e.k)], {})
    [] e.ev = "dereg" -> R([x EXCEPT !.n = Deregister(@, e.code)], {})
    [] e.ev = "setcfg" -> R([x EXCEPT !.n = SetCfg(@, e.cfg)], {})
    [] e.ev = "stall" /\ e.on -> R([x EXCEPT !.calm = FALSE], {})
    [] e.ev = "mark" /\ e.k = "calm" -> R(Calm(x, e.t), {})
    [] e.ev = "end" -> R(x, F("C12", "goroutines left behind", e.left = 0) \cup F("C12", "socket left open", e.open = 0))
    [] OTHER -> R(x, {})

\* which clauses the property under check takes an interest in
Family ==
  CASE Property = "C11" -> {"C01", "C02", "C04", "C05", "C06", "C07", "C08", "C10", "C11"}
    [] Property = "C13" -> {"C13", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C20"}
    [] Property = "C20" -> {"C20", "C02", "C03", "C05", "C07", "C08", "C10"}
    [] OTHER -> {Property}

Init == ln = 0 /\ wd = Idle /\ fails = {}
\* read the files and classify the datagrams once (kept in TLC's registers)
Load == /\ ln = 0
        /\ TLCSet(3, CatFile) /\ TLCSet(4, DumpFile) /\ TLCSet(5, Trace)
        /\ TLCSet(1, ClassifyAll(TLCGet(3))) /\ TLCSet(2, TLCEval(PollBytes))
        /\ ln' = 1 /\ UNCHANGED <<wd, fails>>
Step ==
  /\ ln > 0 /\ ln <= Len(TLCGet(5))
  /\ LET e == TLCGet(5)[ln] IN
     IF e.ev = "begin" THEN wd' = Begin(e) /\ fails' = {}
     ELSE LET p == Advance(wd, e.t)
              r == Handle(p.x, e)
          IN /\ wd' = r.x
             /\ fails' = { x \in p.f \cup r.f : x[1] \in Family }
  /\ ln' = ln + 1

Spec == Init /\ [][Load \/ Step]_vars
Conforms == fails = {}
Accepted == TLCGet("stats").diameter - 2 = Len(TLCGet(5))
Short == [line |-> ln - 1, script |-> wd.s, fails |-> fails]
=============================================================================
