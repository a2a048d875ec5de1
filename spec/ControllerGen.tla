--------------------------- MODULE ControllerGen --------------------------
(***************************************************************************)
(* Behaviours of the environment of a controller, drawn at random from the *)
(* specification (TLC -simulate) and replayed into the real code.  The     *)
(* generator runs Controller.tla along, so that it can aim: announcements  *)
(* that keep, change, drop or take over addresses, writes to addresses     *)
(* that are routed, were routed or never will be, silences around the      *)
(* instants where nodes expire.  Times are in milliseconds.                *)
(***************************************************************************)
EXTENDS Controller, Json, IOUtils

CONSTANTS IPs,       \* numbers of nodes
          Groups,    \* sets of address numbers; an announcement stays within one
          Steps,     \* stimuli per behaviour
          Gaps,      \* pauses
          Horizon,   \* end of the behaviour
          Clashes,   \* may nodes collide on addresses?
          Aim        \* "mix", "dmx", "churn", "toggle" (few addresses that come, go and change direction), "poll"

K == [force |-> 250, poll |-> 3000, stale |-> 7000, seqmax |-> 255]

VARIABLES c, now, gcs, frame, left, log, past
vars == <<c, now, gcs, frame, left, log, past>>

AllAddrs == UNION Groups
Pick(S) == {RandomElement({ x \in S : left > -2 })}   \* depends on the state, or TLC would draw only once

RECURSIVE GcUpTo(_, _, _)
GcUpTo(d, n, t) == IF (n + 1) * K.poll < t THEN GcUpTo(Gc(d, (n + 1) * K.poll, K), n + 1, t) ELSE [c |-> d, n |-> n]

Init == c = Empty /\ now = 1 /\ gcs = 0 /\ frame = 0 /\ left = Steps /\ log = << >> /\ past = {}

Kinds == CASE Aim = "dmx" -> <<"write", "write", "write", "write", "write", "stray", "again", "announce", "poll">>
           [] Aim = "churn" -> <<"announce", "announce", "announce", "again", "again", "write", "write", "silence", "other">>
           [] Aim = "toggle" -> <<"announce", "announce", "announce", "old", "old", "old", "write", "write", "again">>
           [] Aim = "poll" -> <<"poll", "poll", "poll", "own", "announce", "write", "noise", "silence">>
           [] OTHER -> <<"announce", "again", "again", "write", "write", "write", "stray", "poll", "noise", "silence", "other", "old">>

Small(S, n) == { T \in SUBSET S : Cardinality(T) <= n }

\* a silence that ends around the moment where a node expires or just after a housekeeping pass
Silences == {2999, 3001, 4000, 5999, 6999, 7000, 7001, 9001}

Emit(t, r) == /\ log' = Append(log, [r EXCEPT !.at = t]) /\ left' = left - 1
Rec(k) == [k |-> k, at |-> 0, ip |-> 0, outs |-> {}, ins |-> {}, a |-> 0, frame |-> 0]

DoAnn(t, d, ip, outs, ins, kind) ==
  /\ c' = IF kind = "announce" THEN Announce(d, ip, outs, ins, 0, t) ELSE d
  /\ past' = past \cup (IF kind = "announce" THEN outs ELSE {})
  /\ UNCHANGED frame
  /\ Emit(t, [Rec(kind) EXCEPT !.ip = ip, !.outs = outs, !.ins = ins])

Others(d, ip) == UNION { d.nodes[j].outs : j \in Known(d) \ {ip} }
OthersIn(d, ip) == UNION { d.nodes[j].ins : j \in Known(d) \ {ip} }

Step ==
  \E i \in Pick(1..Len(Kinds)) : \E gap \in Pick(Gaps) : \E sil \in Pick(Silences) : \E zero \in Pick(1..5) :
  LET kind == IF Len(log) < 2 THEN "announce" ELSE Kinds[i]
      t0 == now + (IF kind = "silence" THEN sil ELSE IF zero = 1 /\ kind \in {"write", "stray", "poll"} THEN 0 ELSE gap)
      t == IF t0 > Horizon THEN Horizon ELSE t0
      r == GcUpTo(c, gcs, t)
      d == r.c
  IN
  /\ left > 0 /\ now < Horizon
  /\ now' = t /\ gcs' = r.n
  /\ CASE kind = "announce" \/ kind = "silence" ->
            \E ip \in Pick(IPs) : \E gr \in Pick(Groups) :
            LET free == IF Clashes THEN gr ELSE gr \ Others(d, ip)
                freeIn == IF Clashes THEN gr ELSE gr \ OthersIn(d, ip)
            IN \E outs \in Pick(Small(free, 4)) : \E ins \in Pick(Small(freeIn, 4)) :
               DoAnn(t, d, ip, outs, ins, "announce")
       [] kind = "again" /\ Known(d) # {} ->      \* the same announcement again
            \E ip \in Pick(Known(d)) : DoAnn(t, d, ip, d.nodes[ip].outs, d.nodes[ip].ins, "announce")
       [] kind = "other" ->                       \* a device of a style that is ignored
            \E ip \in Pick(IPs) : \E gr \in Pick(Groups) : \E outs \in Pick(Small(gr, 2)) : DoAnn(t, d, ip, outs, {}, "other")
       [] kind = "write" /\ DOMAIN d.out # {} ->
            \E a \in Pick(DOMAIN d.out) :
            /\ c' = Write(d, a, frame + 1) /\ frame' = frame + 1 /\ UNCHANGED past
            /\ Emit(t, [Rec("write") EXCEPT !.a = a, !.frame = frame + 1])
       [] kind = "old" /\ past # {} ->            \* an address that is or was routed
            \E a \in Pick(past) :
            /\ c' = Write(d, a, frame + 1) /\ frame' = frame + 1 /\ UNCHANGED past
            /\ Emit(t, [Rec("write") EXCEPT !.a = a, !.frame = frame + 1])
       [] kind = "stray" ->
            \E a \in Pick(AllAddrs) :
            /\ c' = Write(d, a, frame + 1) /\ frame' = frame + 1 /\ UNCHANGED past
            /\ Emit(t, [Rec("write") EXCEPT !.a = a, !.frame = frame + 1])
       [] OTHER ->
            /\ c' = d /\ UNCHANGED <<frame, past>>
            /\ Emit(t, Rec(IF kind \in {"poll", "own", "noise"} THEN kind ELSE "poll"))

Finish ==
  /\ (left = 0 \/ now >= Horizon) /\ left >= 0
  /\ Serialize(ToJson([log |-> log, end |-> now]) \o "\n", IOEnv.BEHAVIOURS,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
  /\ left' = -1
  /\ UNCHANGED <<c, now, gcs, frame, log, past>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

\* the generator only produces histories the properties speak about
NoClash == Clashes \/ (Collisions(c) = {} /\ InCollisions(c) = {})
=============================================================================
