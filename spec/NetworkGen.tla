----------------------------- MODULE NetworkGen -----------------------------
(***************************************************************************)
(* Histories of hosts on one network, drawn at random (TLC -simulate), for *)
(* replay into real nodes and controllers: who starts and stops when, with *)
(* which of its port configurations, and the frames controllers are given. *)
(* Times are in milliseconds.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Ctrls, Nodes,   \* numbers of hosts
          Configs,        \* port configurations per node: 1..Configs
          Steps, Gaps, Horizon

VARIABLES up, now, left, log
vars == <<up, now, left, log>>

Pick(S) == {RandomElement({ x \in S : left > -2 })}
Hosts == Ctrls \cup Nodes
Init == up = {} /\ now = 1 /\ left = Steps /\ log = << >>

Emit(t, r) == log' = Append(log, [r EXCEPT !.at = t]) /\ left' = left - 1
Rec(k, h) == [k |-> k, at |-> 0, h |-> h, cfg |-> 0, n |-> 0]

Pauses == {2990, 3010, 3100, 6990, 7010, 9990, 10010, 10100, 12000}

Step ==
  /\ left > 0 /\ now < Horizon
  /\ \E i \in Pick(1..14) : \E gap \in Pick(Gaps) : \E p \in Pick(Pauses) : \E h \in Pick(Hosts) : \E x \in Pick(Ctrls) : \E n \in Pick(Nodes) : \E q \in Pick(1..Configs) :
     LET first == Len(log) < 3
         t == now + (IF i <= 2 THEN p ELSE gap)
     IN /\ now' = t
        /\ CASE h \notin up /\ (first \/ i <= 8) -> up' = up \cup {h} /\ Emit(t, [Rec("start", h) EXCEPT !.cfg = q])
             [] h \in up /\ ~first /\ i \in 3..4 -> up' = up \ {h} /\ Emit(t, Rec("stop", h))
             [] h \in up /\ ~first /\ i = 5 ->      \* restarts at once
                  up' = up /\ Emit(t, [Rec("restart", h) EXCEPT !.cfg = q])
             [] x \in up -> up' = up /\ Emit(t, [Rec("write", x) EXCEPT !.n = n, !.cfg = q])
             [] OTHER -> up' = up \cup {x} /\ Emit(t, Rec("start", x))
Finish ==
  /\ (left = 0 \/ now >= Horizon) /\ left >= 0
  /\ Serialize(ToJson([log |-> log, end |-> now]) \o "\n", IOEnv.BEHAVIOURS,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
  /\ left' = -1 /\ UNCHANGED <<up, now, log>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
