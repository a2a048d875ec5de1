---------------------------- MODULE Controller ----------------------------
(***************************************************************************)
(* The controller: registry of nodes, routing tables, DMX engine.          *)
(*                                                                         *)
(* The state is one record                                                 *)
(*   nodes : ip -> [outs, ins, seen, seq, buf]     the known nodes         *)
(*   out, in : address -> ip                       the routing tables      *)
(* with buf : address -> [frame, fresh, last], the frame a node shows on   *)
(* an address, whether it has not been sent yet, and when the last         *)
(* datagram left (Never if none did).                                      *)
(*                                                                         *)
(* Every operator takes the current time, and the parameters of the run    *)
(* as a record k = [force, poll, stale, seqmax].  The same operators run   *)
(* the exhaustive model (ControllerMC, small numbers) and the conformance  *)
(* monitor (WorldTrace, microseconds).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Never == -1000000000

Restrict(f, S) == [ x \in S |-> f[x] ]
Without(f, S) == Restrict(f, DOMAIN f \ S)
Over(f, g) == [ x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x] ]
Const(S, v) == [ x \in S |-> v ]

Empty == [nodes |-> << >>, out |-> << >>, in |-> << >>]

Dark == [frame |-> 0, fresh |-> FALSE, last |-> Never]

Known(c) == DOMAIN c.nodes

NextSeq(s, k) == (s % k.seqmax) + 1

\* An announcement of ip has been processed at time t; info is what else was announced.
Announce(c, ip, outs, ins, info, t) ==
  LET old == ip \in Known(c)
      n == IF old
           THEN [c.nodes[ip] EXCEPT !.outs = outs, !.ins = ins, !.seen = t, !.info = info,
                                    !.buf = Over(Const(outs, Dark), @)]
           ELSE [outs |-> outs, ins |-> ins, seen |-> t, seq |-> 0, info |-> info, buf |-> Const(outs, Dark)]
      out1 == IF old THEN Without(c.out, c.nodes[ip].outs) ELSE c.out
      in1 == IF old THEN Without(c.in, c.nodes[ip].ins) ELSE c.in
  IN [ nodes |-> Over(c.nodes, ip :> n),
       out |-> Over(out1, Const(outs, ip)),
       in |-> Over(in1, Const(ins, ip)) ]

Expired(c, t, k) == { ip \in Known(c) : t - c.nodes[ip].seen > k.stale }

\* A housekeeping pass at time t.
Gc(c, t, k) ==
  LET x == Expired(c, t, k) IN
  [ nodes |-> Without(c.nodes, x),
    out |-> Without(c.out, UNION { c.nodes[ip].outs : ip \in x }),
    in |-> Without(c.in, UNION { c.nodes[ip].ins : ip \in x }) ]

\* SendDMXToAddress
Write(c, a, f) ==
  IF a \notin DOMAIN c.out THEN c
  ELSE [c EXCEPT !.nodes[c.out[a]].buf[a] = [@ EXCEPT !.frame = f, !.fresh = TRUE]]

\* Addresses that get a datagram in the pass of the DMX engine at time t.
DueAt(c, t, k) ==
  { a \in DOMAIN c.out : LET b == c.nodes[c.out[a]].buf[a] IN
        b.fresh \/ b.last = Never \/ t - b.last > k.force }

\* The datagram for address a leaves for node ip at time t.
Sent(c, ip, a, t, k) ==
  [c EXCEPT !.nodes[ip].seq = NextSeq(@, k),
            !.nodes[ip].buf[a] = [@ EXCEPT !.fresh = FALSE, !.last = t]]

Datagram(c, ip, a, k) == [to |-> ip, addr |-> a, seq |-> NextSeq(c.nodes[ip].seq, k), frame |-> c.nodes[ip].buf[a].frame]

\* addresses announced by two known nodes at once
Announcers(c, a) == { ip \in Known(c) : a \in c.nodes[ip].outs }
InAnnouncers(c, a) == { ip \in Known(c) : a \in c.nodes[ip].ins }
AllOuts(c) == UNION { c.nodes[ip].outs : ip \in Known(c) }
AllIns(c) == UNION { c.nodes[ip].ins : ip \in Known(c) }
Collisions(c) == { a \in AllOuts(c) : Cardinality(Announcers(c, a)) > 1 }
InCollisions(c) == { a \in AllIns(c) : Cardinality(InAnnouncers(c, a)) > 1 }
=============================================================================
