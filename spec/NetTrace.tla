------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded runs of several real nodes and controllers on   *)
(* one network with the properties of Network.tla (C21).  Only what their  *)
(* users see is judged: registries of controllers, callbacks of nodes,     *)
(* calls.  Times are in microseconds of virtual time; every datagram is    *)
(* delivered within x.d.                                                   *)
(***************************************************************************)
EXTENDS Integers, Announce, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ln, wd, fails
vars == <<ln, wd, fails>>

F(cl, ok) == IF ok THEN {} ELSE {<<"C21", cl>>}
R(x, f) == [x |-> x, f |-> f]

Poll == 3000000
Stale == 7000000
Force == 250000
Slack == 10000
Tiny == 100

Restrict(f, S) == [ i \in S |-> f[i] ]
Over(f, g) == [ i \in DOMAIN f \cup DOMAIN g |-> IF i \in DOMAIN g THEN g[i] ELSE f[i] ]
Interval(h) == (1000000 + h.fps - 1) \div h.fps

\* A host: up (running since, -1 if not), off (stopped at), cfg (as a controller has to show it), past (configurations
\* of earlier lives with the time they ended), seen (output address -> last ArtDmx callback)
Host(j) == [kind |-> j.kind, ip |-> j.ip, iv |-> IF j.kind = "ctrl" THEN Interval(j) ELSE 0, up |-> -1, off |-> -1,
            cfg |-> << >>, past |-> {}, seen |-> << >>]
\* x.w: <<controller, address>> -> frames given while the node there was known for certain, in order, with time and whether
\* they are still to arrive; x.given: all frames given, with time; x.heard: last time one of them arrived
Begin(e) == [s |-> e.s, d |-> e.d, h |-> [ i \in 1..Len(e.hosts) |-> Host(e.hosts[i]) ], w |-> << >>, given |-> << >>, heard |-> << >>]
Idle == [s |-> "", d |-> 0, h |-> << >>, w |-> << >>, given |-> << >>, heard |-> << >>]

Ctrls(x) == { i \in DOMAIN x.h : x.h[i].kind = "ctrl" }
Nodes(x) == { i \in DOMAIN x.h : x.h[i].kind = "node" }
Later(a, b) == IF a > b THEN a ELSE b
FindTime(x) == Poll + (3 * x.d) + Slack
LoseTime(x) == Stale + Poll + x.d + Slack
BothSince(x, c, n) == Later(x.h[c].up, x.h[n].up)
Found(x, c, n, t) == x.h[c].up >= 0 /\ x.h[n].up >= 0 /\ t - BothSince(x, c, n) > FindTime(x)

\* ---- deadlines -------------------------------------------------------------
\* the first frame given to c for a that has not arrived yet came too long ago
Overdue(x, p, t) == \E i \in 1..Len(x.w[p]) : x.w[p][i].wait /\ t - x.w[p][i].t > x.h[p[1]].iv + x.d + Tiny
\* the latest frame given to c for a has not been repeated in time
Faded(x, p, t) == Len(x.w[p]) > 0 /\ p \in DOMAIN x.heard /\ ~x.w[p][Len(x.w[p])].wait /\
                  t - x.heard[p] > Force + x.h[p[1]].iv + x.d + Tiny
\* nothing at all arrives at n for one of its addresses
Silent(x, n, a, t) ==
  \E c \in Ctrls(x) :
     /\ Found(x, c, n, t)
     /\ t - Later(BothSince(x, c, n) + FindTime(x), IF a \in DOMAIN x.h[n].seen THEN x.h[n].seen[a] ELSE 0)
          > Force + x.h[c].iv + x.d + Tiny
Deadlines(x, t) ==
  F("frame does not arrive", \A p \in DOMAIN x.w : ~Overdue(x, p, t)) \cup
  F("frame is not repeated", \A p \in DOMAIN x.w : ~Faded(x, p, t)) \cup
  F("address gets nothing", \A n \in Nodes(x) : x.h[n].up >= 0 => \A a \in OutAddrs(x.h[n].cfg) : ~Silent(x, n, a, t))

\* ---- events ----------------------------------------------------------------
\* what a controller shows of a node with this configuration
Shown(cfg) == TLCEval(ToConfig(FromConfig(cfg)))

OnStartCall(x, e) == R(IF x.h[e.h].kind = "node" THEN [x EXCEPT !.h[e.h].cfg = Shown(e.cfg)]
                        ELSE IF x.h[e.h].off < 0 \/ e.t - x.h[e.h].off <= x.d + Tiny THEN x
                        ELSE [x EXCEPT !.given = Restrict(@, { p \in DOMAIN @ : p[1] # e.h })], {})
OnStartRet(x, e) == R([x EXCEPT !.h[e.h].up = e.t, !.h[e.h].seen = << >>], F("Start fails", e.ok))

\* the pairs a host takes part in start anew
Forget(x, h) ==
  LET keep == { p \in DOMAIN x.w : p[1] # h /\ (x.h[h].kind = "ctrl" \/ \A q \in x.h[h].past : p[2] \notin OutAddrs(q.cfg)) } IN
  [x EXCEPT !.w = Restrict(@, keep), !.heard = Restrict(@, keep \cap DOMAIN @)]
OnStopCall(x, e) ==
  IF x.h[e.h].up < 0 THEN R(x, {})
  ELSE R(Forget([x EXCEPT !.h[e.h].up = -1, !.h[e.h].off = e.t,
                          !.h[e.h].past = { q \in @ : e.t - q.t <= LoseTime(x) } \cup (IF x.h[e.h].kind = "node" THEN {[cfg |-> x.h[e.h].cfg, t |-> e.t]} ELSE {})], e.h), {})

Given(x, p) == IF p \in DOMAIN x.given THEN x.given[p] ELSE {}
Owners(x, a) == { n \in Nodes(x) : x.h[n].up >= 0 /\ a \in OutAddrs(x.h[n].cfg) }
\* (a frame may arrive before the call returns)
OnWriteCall(x, e) ==
  LET p == <<e.h, e.a>>
      sure == \E n \in Owners(x, e.a) : Found(x, e.h, n, e.t)
      was == IF p \in DOMAIN x.w THEN x.w[p] ELSE << >>
      y == [x EXCEPT !.given = Over(@, p :> Given(x, p) \cup {e.frame})]
  IN R(IF sure THEN [y EXCEPT !.w = Over(@, p :> Append(was, [f |-> e.frame, t |-> e.t, wait |-> TRUE]))] ELSE y, {})

\* frame f may arrive at time t from controller c for a
Fits(x, c, a, f, t) ==
  LET p == <<c, a>>
      w == IF p \in DOMAIN x.w THEN x.w[p] ELSE << >>
      recent(u) == t - u <= x.d + Tiny
  IN /\ x.h[c].up >= 0 \/ (x.h[c].off >= 0 /\ recent(x.h[c].off))
     /\ IF Len(w) = 0 THEN f = 0 \/ f \in Given(x, p)
        ELSE \/ f = w[Len(w)].f
             \/ recent(w[1].t) /\ (f = 0 \/ f \in Given(x, p))
             \/ \E i \in 1..Len(w) - 1 : w[i].f = f /\ recent(w[i + 1].t)

OnCb(x, e) ==
  LET me == x.h[e.h]
      from == { c \in Ctrls(x) : e.frame \in Given(x, <<c, e.a>>) }
      ps == { p \in DOMAIN x.w : p[2] = e.a /\ \E i \in 1..Len(x.w[p]) : x.w[p][i].f = e.frame }
      arrived(w) == LET i == CHOOSE i \in 1..Len(w) : w[i].f = e.frame IN [ k \in 1..Len(w) |-> IF k <= i THEN [w[k] EXCEPT !.wait = FALSE] ELSE w[k] ]
      \* forget what has been replaced for long
      trim(w) == LET n == { i \in 1..Len(w) : \A k \in 1..i : ~w[k].wait /\ e.t - w[k].t > 1000000 + (2 * x.d) } IN
                 LET m == IF n = {} THEN 1 ELSE Later(1, (CHOOSE i \in n : \A k \in n : k <= i) - 1) IN SubSeq(w, m, Len(w))
      y == [x EXCEPT !.w = [ p \in DOMAIN @ |-> IF p \in ps THEN trim(arrived(@[p])) ELSE @[p] ],
                     !.heard = Over(@, [ p \in ps |-> e.t ]),
                     !.h[e.h].seen = Over(@, e.a :> e.t)]
  IN IF me.up < 0 THEN R(x, {})     \* callbacks may still run when Stop has returned
     ELSE R(y,
       F("frame nobody gave", e.frame >= 0 /\ (e.frame = 0 \/ from # {})) \cup
       F("address of another node", e.a \in OutAddrs(me.cfg) \/ \E q \in me.past : e.a \in OutAddrs(q.cfg)) \cup
       F("address of an earlier life", e.a \in OutAddrs(me.cfg) \/ e.t - me.up <= FindTime(x) + x.d) \cup
       F("outdated frame", \E c \in Ctrls(x) : Fits(x, c, e.a, e.frame, e.t)))

CfgEq(r, q) == \A m \in DOMAIN q : m \in DOMAIN r /\ r[m] = q[m]
Routes(s, nodes) == { <<s[i][1], IF s[i][2] = 0 THEN << >> ELSE nodes[s[i][2]].ip>> : i \in 1..Len(s) }
OnSnap(x, e) ==
  LET c == e.h
      out == Routes(e.out, e.nodes)  in == Routes(e.in, e.nodes)
      Is == 1..Len(e.nodes)
      must == { n \in Nodes(x) : Found(x, c, n, e.t) }
      who(i) == { n \in Nodes(x) : x.h[n].ip = e.nodes[i].ip }
      \* this configuration may still be known
      known(n, q) == \/ x.h[n].up >= 0 /\ CfgEq(q, x.h[n].cfg)
                     \/ n \notin must /\ \E p \in x.h[n].past : e.t - p.t <= LoseTime(x) /\ CfgEq(q, p.cfg)
  IN IF x.h[c].up < 0 THEN R(x, {})
     ELSE R(x,
       F("node not found", \A n \in must : \E i \in Is : e.nodes[i].ip = x.h[n].ip) \cup
       F("node listed twice", \A i, k \in Is : e.nodes[i].ip = e.nodes[k].ip => i = k) \cup
       F("host that is no node", \A i \in Is : who(i) # {}) \cup
       F("outdated configuration", \A i \in Is : \A n \in who(i) : known(n, e.nodes[i])) \cup
       F("output route missing", \A n \in must : \A a \in OutAddrs(x.h[n].cfg) : <<a, x.h[n].ip>> \in out) \cup
       F("input route missing", \A n \in must : \A a \in InAddrs(x.h[n].cfg) : <<a, x.h[n].ip>> \in in) \cup
       F("stray route", /\ \A r \in out : \E i \in Is : e.nodes[i].ip = r[2] /\ r[1] \in OutAddrs(e.nodes[i])
                        /\ \A r \in in : \E i \in Is : e.nodes[i].ip = r[2] /\ r[1] \in InAddrs(e.nodes[i])))

Handle(x, e) ==
  CASE e.ev = "start_call" -> OnStartCall(x, e)
    [] e.ev = "start_ret" -> OnStartRet(x, e)
    [] e.ev = "stop_call" -> OnStopCall(x, e)
    [] e.ev = "write_call" -> OnWriteCall(x, e)
    [] e.ev = "cb" -> OnCb(x, e)
    [] e.ev = "snap" -> OnSnap(x, e)
    [] e.ev = "hang" -> R(x, F("call does not return", FALSE))
    [] OTHER -> R(x, {})

Init == ln = 0 /\ wd = Idle /\ fails = {}
Load == ln = 0 /\ TLCSet(5, Trace) /\ ln' = 1 /\ UNCHANGED <<wd, fails>>
Step ==
  /\ ln > 0 /\ ln <= Len(TLCGet(5))
  /\ LET e == TLCGet(5)[ln] IN
     IF e.ev = "begin" THEN wd' = Begin(e) /\ fails' = {}
     ELSE LET r == Handle(wd, e) IN wd' = r.x /\ fails' = Deadlines(wd, e.t) \cup r.f
  /\ ln' = ln + 1
Spec == Init /\ [][Load \/ Step]_vars
Conforms == fails = {}
Accepted == TLCGet("stats").diameter - 2 = Len(TLCGet(5))
Short == [line |-> ln - 1, script |-> wd.s, fails |-> fails]
=============================================================================
