------------------------------- MODULE Node -------------------------------
(***************************************************************************)
(* The node as its user sees it: life cycle, options, callbacks, and what  *)
(* a received datagram entitles to.  A node is a record                    *)
(*   up      running                                                       *)
(*   own     its own IP (<<>> if none)                                     *)
(*   cfg     configuration; ann: configuration it was started with         *)
(*   cbs     opcode -> label of the callback; "#poll" and "#reply" are the *)
(*           built-in ones                                                 *)
(*   owed    replies still to be sent                                      *)
(*   exp     bag <<label, datagram>> -> number of callbacks still to come  *)
(*   late    the same, from before the last Stop: they may still come      *)
(*   listen, bcast  addresses [ip, port]                                   *)
(***************************************************************************)
EXTENDS Announce

AnyIP(ip) == ip = << >> \/ ip = <<0, 0, 0, 0>>
SameIP(a, b) == a = b \/ (AnyIP(a) /\ AnyIP(b))
DefaultListen == [ip |-> << >>, port |-> ArtNetPort]
DefaultBcast == [ip |-> <<2, 255, 255, 255>>, port |-> ArtNetPort]
DefaultFPS == 1000
MaxRate == 1000000000

OpPoll == OpOf.ArtPollPacket
OpReply == OpOf.ArtPollReplyPacket

New(own, cfg) ==
  [ up |-> FALSE, own |-> own, cfg |-> cfg, ann |-> cfg,
    cbs |-> (OpPoll :> "#poll") @@ (OpReply :> "#reply"),
    owed |-> 0, exp |-> << >>, late |-> << >>, listen |-> DefaultListen, bcast |-> DefaultBcast, fps |-> DefaultFPS ]

\* ---- options -------------------------------------------------------------
OptOK(o) == o.o = "fps" => o.v \in 1..MaxRate
Apply(n, o) ==
  CASE o.o = "fps" /\ OptOK(o) -> [n EXCEPT !.fps = o.v]
    [] o.o = "bcast" -> [n EXCEPT !.bcast = [ip |-> o.ip, port |-> o.port]]
    [] o.o = "listen" -> [n EXCEPT !.listen = [ip |-> o.ip, port |-> o.port]]
    [] o.o = "listenip" -> [n EXCEPT !.listen = [ip |-> o.ip, port |-> ArtNetPort]]
    [] OTHER -> n
RECURSIVE ApplyAll(_, _)
ApplyAll(n, os) == IF os = << >> THEN n ELSE ApplyAll(Apply(n, os[1]), Tail(os))

\* ---- life cycle ----------------------------------------------------------
\* Start may open a socket
MayListen(n) == ~n.up /\ Startable(n.cfg)
Sum(b, d) == [ x \in DOMAIN b \cup DOMAIN d |-> (IF x \in DOMAIN b THEN b[x] ELSE 0) + (IF x \in DOMAIN d THEN d[x] ELSE 0) ]
Started(n) == [n EXCEPT !.up = TRUE, !.ann = n.cfg, !.owed = 0, !.exp = << >>, !.late = Sum(n.exp, @)]
\* Stop does not wait for callbacks (one of them may be the caller)
Stopped(n) == [n EXCEPT !.up = FALSE, !.owed = 0, !.exp = << >>, !.late = Sum(n.exp, @)]
SetCfg(n, cfg) == [n EXCEPT !.cfg = cfg]
Register(n, op, k) == IF n.up THEN n ELSE [n EXCEPT !.cbs = (op :> k) @@ @]
Deregister(n, op) == IF n.up THEN n ELSE [n EXCEPT !.cbs = [ o \in DOMAIN @ \ {op} |-> @[o] ]]

\* ---- traffic -------------------------------------------------------------
\* p: what the datagram is, [ok, type, f]; id: its identity
Bump(b, x) == (x :> (IF x \in DOMAIN b THEN b[x] + 1 ELSE 1)) @@ b
Drop(b, x) == IF b[x] > 1 THEN [b EXCEPT ![x] = @ - 1] ELSE [ y \in DOMAIN b \ {x} |-> b[y] ]

Concerns(n, p, from) == n.up /\ p.ok /\ from # n.own /\ OpOf[p.type] \in DOMAIN n.cbs
LabelOf(n, p) == n.cbs[OpOf[p.type]]
Received(n, p, id, from) ==
  IF ~Concerns(n, p, from) THEN n
  ELSE IF LabelOf(n, p) = "#poll" THEN [n EXCEPT !.owed = @ + 1]
  ELSE IF LabelOf(n, p) = "#reply" THEN n
  ELSE [n EXCEPT !.exp = Bump(@, <<LabelOf(n, p), id>>)]
=============================================================================
