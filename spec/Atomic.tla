------------------------------ MODULE Atomic ------------------------------
(***************************************************************************)
(* C18: SendDMXToAddress as an atomic register per universe address.       *)
(* Concurrent calls are recorded as pcall/pret, datagrams as dmx.  A       *)
(* datagram sent at (virtual) time t was prepared at that instant, so its  *)
(* frame must be one of the frames that can be current then in some        *)
(* linearisation of the calls: the call had begun, and no call that        *)
(* followed it had returned before that instant.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Property
TraceFile == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ln, reg, fails, sid, iv
vars == <<ln, reg, fails, sid, iv>>

Over(f, g) == [ x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x] ]
Late == 2000000000
F(p, cl, ok) == IF ok \/ p # Property THEN {} ELSE {<<p, cl>>}

(* A register is [calls, shown, at]: the calls that may still matter, each   *)
(* [id, frame, done, ret, over]: over is the time at which a call following  *)
(* it had returned; shown: frame of the latest datagram.                     *)
Blank == [calls |-> { [id |-> "", frame |-> 0, done |-> 0, ret |-> -1, over |-> Late, from |-> 0] }, shown |-> 0, at |-> -1, due |-> {}]
RegOf(a) == IF a \in DOMAIN reg THEN reg[a] ELSE Blank

Called(r, e) == [r EXCEPT !.calls = @ \cup { [id |-> e.id, frame |-> e.frame, done |-> Late, ret |-> Late, over |-> Late, from |-> ln] },
                             !.due = @ \cup { [id |-> e.id, from |-> ln, ret |-> Late] }]
\* calls that had returned before the call g began
Before(r, g) == { f \in r.calls : f.done < g.from }
Returned(r, e) ==
  LET g == CHOOSE f \in r.calls : f.id = e.id /\ f.done = Late
      b == Before(r, g)
      h == [g EXCEPT !.done = ln, !.ret = e.t]
  IN [r EXCEPT !.calls = (@ \ (b \cup {g})) \cup {h}
                         \cup { [f EXCEPT !.over = IF @ < e.t THEN @ ELSE e.t] : f \in b },
                 !.due = { IF d.from = g.from THEN [d EXCEPT !.ret = e.t] ELSE d : d \in @ }]
Current(r, t) == { f \in r.calls : f.over >= t }
Frames(r, t) == { f.frame : f \in Current(r, t) }
Shown(r, e) ==
  LET cur == Current(r, e.t)
      quiet == \A f \in r.calls : f.ret < e.t     \* nothing was going on at that instant
      \* the calls this datagram serves: its own, and all that its own did not precede
      own == { f \in cur : f.frame = e.frame }
      served(d) == \E f \in own : f.done >= d.from
  IN [calls |-> IF quiet THEN own ELSE cur, shown |-> e.frame, at |-> e.t, due |-> { d \in r.due : ~served(d) }]

(* C02: a completed call is served within one frame interval.              *)
Tardy(e) == \E a \in DOMAIN reg : \E d \in reg[a].due : d.ret # Late /\ e.t > d.ret + iv

Addr(e) == e.h[15] + 256 * e.h[16]

Handle(e) ==
  CASE e.ev = "pcall" -> /\ reg' = Over(reg, e.a :> Called(RegOf(e.a), e)) /\ fails' = {}
    [] e.ev = "pret" -> /\ reg' = Over(reg, e.a :> Returned(RegOf(e.a), e)) /\ fails' = {}
    [] e.ev = "dmx" ->
         /\ fails' = F("C18", "a whole frame that was current", e.frame \in Frames(RegOf(Addr(e)), e.t))
                      \cup F("C02", "a frame leaves within one interval", ~Tardy(e))
         /\ reg' = Over(reg, Addr(e) :> Shown(RegOf(Addr(e)), e))
    \* all calls returned some time ago
    [] e.ev = "mark" /\ e.k = "settled" ->
         /\ fails' = F("C18", "the last frame is shown", \A a \in DOMAIN reg : reg[a].at >= 0 /\ reg[a].shown \in Frames(reg[a], e.t))
                      \cup F("C02", "a frame leaves within one interval", ~Tardy(e))
         /\ UNCHANGED reg
    [] e.ev = "hang" -> fails' = F("C18", "call returns", e.what # "write") /\ UNCHANGED reg
    [] OTHER -> UNCHANGED reg /\ fails' = {}

Init == ln = 0 /\ reg = << >> /\ fails = {} /\ sid = "" /\ iv = 0
Load == ln = 0 /\ TLCSet(1, TraceFile) /\ ln' = 1 /\ UNCHANGED <<reg, fails, sid, iv>>
Step ==
  /\ ln > 0 /\ ln <= Len(TLCGet(1))
  /\ LET e == TLCGet(1)[ln] IN
     IF e.ev = "begin" THEN reg' = << >> /\ fails' = {} /\ sid' = e.s /\ iv' = e.iv
     ELSE Handle(e) /\ UNCHANGED <<sid, iv>>
  /\ ln' = ln + 1

Spec == Init /\ [][Load \/ Step]_vars
Conforms == fails = {}
Accepted == TLCGet("stats").diameter - 2 = Len(TLCGet(1))
Short == [line |-> ln - 1, script |-> sid, fails |-> fails]
=============================================================================
