----------------------------- MODULE Lifecycle ----------------------------
(***************************************************************************)
(* Life cycle of a node (or the node of a controller): calls of the user   *)
(* in any order, with the listen address free or taken and the             *)
(* configuration good or bad.  Uses the operators of Node.tla that the     *)
(* trace monitor uses.  Checked exhaustively for call sequences up to Depth; *)
(* with BEHAVIOURS set the sequences are written out and replayed into the *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS Node, Json, IOUtils

CONSTANTS Depth, Calls, Labels

Cfg(ok) == [inputs |-> IF ok THEN << >> ELSE << [addr |-> 0, type |-> 1, status |-> 0] >>,
            outputs |-> IF ok THEN << >> ELSE << [addr |-> 0, type |-> 0, status |-> 0] >>, base |-> 0]
OpTest == OpOf.ArtSyncPacket

VARIABLES nd,       \* the node
          socks,    \* open sockets
          free,     \* the listen address can be bound
          result,   \* of the last call
          got,      \* label of the callback the last test packet reached
          calls     \* history
vars == <<nd, socks, free, result, got, calls>>

Init == /\ nd = New(<<1, 2, 3, 4>>, Cfg(TRUE)) /\ socks = 0 /\ free = TRUE /\ result = "" /\ got = "" /\ calls = << >>

Does(c) == c \in Calls /\ Len(calls) < Depth /\ calls' = Append(calls, c)

StartOK == /\ Does("start") /\ MayListen(nd) /\ free
           /\ nd' = Started(nd) /\ socks' = socks + 1 /\ result' = "nil" /\ UNCHANGED <<free, got>>
StartTaken == /\ Does("start") /\ MayListen(nd) /\ ~free
              /\ free' = TRUE /\ result' = "error" /\ UNCHANGED <<nd, socks, got>>
StartRefused == /\ Does("start") /\ ~MayListen(nd)
                /\ result' = "error" /\ UNCHANGED <<nd, socks, free, got>>
StopIt == /\ Does("stop")
          /\ nd' = (IF nd.up THEN Stopped(nd) ELSE nd)
          /\ socks' = (IF nd.up THEN socks - 1 ELSE socks)
          /\ result' = "" /\ UNCHANGED <<free, got>>
Take == Does("fail") /\ free /\ free' = FALSE /\ UNCHANGED <<nd, socks, result, got>>
SetBad == Does("bad") /\ ~nd.up /\ nd' = SetCfg(nd, Cfg(FALSE)) /\ UNCHANGED <<socks, free, result, got>>
SetGood == Does("good") /\ ~nd.up /\ ~Startable(nd.cfg) /\ nd' = SetCfg(nd, Cfg(TRUE)) /\ UNCHANGED <<socks, free, result, got>>
Reg(k) == Does("reg" \o k) /\ nd' = Register(nd, OpTest, k) /\ UNCHANGED <<socks, free, result, got>>
Dereg == Does("dereg") /\ nd' = Deregister(nd, OpTest) /\ UNCHANGED <<socks, free, result, got>>
Packet == /\ Does("packet")
          /\ LET p == [ok |-> TRUE, type |-> "ArtSyncPacket"] IN
             got' = (IF Concerns(nd, p, << >>) THEN LabelOf(nd, p) ELSE "")
          /\ UNCHANGED <<nd, socks, free, result>>
Poll == Does("poll") /\ nd' = [nd EXCEPT !.owed = 0] /\ UNCHANGED <<socks, free, result, got>>
Others == \E c \in {"announce", "write", "wait"} : Does(c) /\ UNCHANGED <<nd, socks, free, result, got>>

Next == StartOK \/ StartTaken \/ StartRefused \/ StopIt \/ Take \/ SetBad \/ SetGood \/ (\E k \in Labels : Reg(k)) \/ Dereg
        \/ Packet \/ Poll \/ Others
Spec == Init /\ [][Next]_vars

\* ---- what the history entitles to expect (from the calls alone) -------------
RECURSIVE UpAfter(_), CfgAfter(_), FreeAfter(_), CbAfter(_)
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
CfgAfter(s) == IF s = << >> THEN TRUE ELSE IF Last(s) = "bad" THEN FALSE ELSE IF Last(s) = "good" THEN TRUE ELSE CfgAfter(Front(s))
FreeAfter(s) == IF s = << >> THEN TRUE ELSE IF Last(s) = "fail" THEN FALSE
                ELSE IF Last(s) = "start" /\ ~UpAfter(Front(s)) /\ CfgAfter(Front(s)) THEN TRUE ELSE FreeAfter(Front(s))
UpAfter(s) == IF s = << >> THEN FALSE ELSE IF Last(s) = "stop" THEN FALSE
              ELSE IF Last(s) = "start" THEN UpAfter(Front(s)) \/ (CfgAfter(Front(s)) /\ FreeAfter(Front(s)))
              ELSE UpAfter(Front(s))
CbAfter(s) == IF s = << >> THEN "" ELSE
              IF UpAfter(Front(s)) THEN CbAfter(Front(s))
              ELSE IF \E k \in Labels : Last(s) = "reg" \o k THEN CHOOSE k \in Labels : Last(s) = "reg" \o k
              ELSE IF Last(s) = "dereg" THEN "" ELSE CbAfter(Front(s))

Runs == nd.up = UpAfter(calls)
Sockets == socks = (IF nd.up THEN 1 ELSE 0)
Result == (calls # << >> /\ Last(calls) = "start") => (result = "nil") = (~UpAfter(Front(calls)) /\ UpAfter(calls))
Reached == (calls # << >> /\ Last(calls) = "packet") => got = (IF nd.up THEN CbAfter(calls) ELSE "")
FailedStartIsNothing == [][(result' = "error" /\ calls' # calls /\ Last(calls') = "start") => nd' = nd /\ socks' = socks]_vars
StopWhenDownIsNothing == [][(~nd.up /\ calls' # calls /\ Last(calls') = "stop") => nd' = nd /\ socks' = socks]_vars

Written == Len(calls) < Depth \/ "BEHAVIOURS" \notin DOMAIN IOEnv \/
   Serialize(ToJson(calls) \o "\n", IOEnv.BEHAVIOURS,
             [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
