--------------------------- MODULE ControllerMC ---------------------------
(***************************************************************************)
(* Exhaustive model of the controller.  One unit of time is one frame      *)
(* interval.  Time is kept relative: the present is 0, and Tick shifts all *)
(* stored times into the past (clamped where they no longer matter).       *)
(* Environment: nodes announce themselves with any ports at any time (or   *)
(* fall silent), the user writes frames to any address.                    *)
(* Ghost variables record the history the properties speak about.          *)
(***************************************************************************)
EXTENDS Controller

CONSTANTS IPs, Addrs, Ins, Frames, Force, PollEvery, StaleAfter, SeqMax, Clashes, Engine

K == [force |-> Force, poll |-> PollEvery, stale |-> StaleAfter, seqmax |-> SeqMax]

VARIABLES c,        \* the controller
          todo,     \* activities due at this instant: "dmx", "gc", "poll"
          pend,     \* addresses the DMX pass still has to send
          pollAge,  \* since the last poll
          tx,       \* last datagram (or None)
          g         \* ghosts
vars == <<c, todo, pend, pollAge, tx, g>>
None == [to |-> "none", addr |-> 0, seq |-> 0, frame |-> 0, gap |-> 0, idle |-> FALSE, first |-> FALSE, prev |-> 0]

PairsOf == IPs \X Addrs
Lim == Force + 2
SeenLim == StaleAfter + PollEvery + 1

\* g.heard[ip]: age of the last announcement; g.want: frame to show; g.lastTx: age of the last
\* datagram (Lim: long ago); g.unsent: age of an unsent write (-1: none); g.touched: written since the
\* last datagram; g.seq: last sequence number sent in this membership; g.clash: nodes collided in this history
Init == /\ c = Empty /\ todo = {"poll"} /\ pend = {} /\ pollAge = 0 /\ tx = None
        /\ g = [heard |-> Const(IPs, SeenLim), outs |-> Const(IPs, {}), ins |-> Const(IPs, {}),
                want |-> Const(PairsOf, 0), lastTx |-> Const(PairsOf, Lim),
                unsent |-> Const(PairsOf, -1), touched |-> Const(PairsOf, TRUE), seq |-> Const(IPs, 0),
                routedAge |-> Const(PairsOf, -1), clash |-> FALSE]

Unlocked == pend = {}
RoutedP(cc, ip, a) == ip \in Known(cc) /\ a \in cc.nodes[ip].outs
Clash(cc) == Collisions(cc) # {} \/ InCollisions(cc) # {}

\* ghost bookkeeping for a change of registry from c to d
Reg(d, gg) ==
  [gg EXCEPT !.want = [ p \in PairsOf |-> IF p[1] \in Known(c) /\ p[1] \in Known(d) THEN @[p] ELSE 0 ],
             !.unsent = [ p \in PairsOf |-> IF RoutedP(c, p[1], p[2]) /\ RoutedP(d, p[1], p[2]) THEN @[p] ELSE -1 ],
             !.touched = [ p \in PairsOf |-> IF p[1] \in Known(c) /\ p[1] \in Known(d) THEN @[p] ELSE TRUE ],
             !.seq = [ ip \in IPs |-> IF ip \in Known(c) /\ ip \in Known(d) THEN @[ip] ELSE 0 ],
             !.routedAge = [ p \in PairsOf |-> IF RoutedP(d, p[1], p[2])
                                               THEN (IF RoutedP(c, p[1], p[2]) THEN @[p] ELSE 0) ELSE -1 ],
             !.lastTx = [ p \in PairsOf |-> IF p[1] \in Known(d) THEN @[p] ELSE Lim ],
             \* a node that fell silent long ago and is gone leaves no trace
             !.heard = [ ip \in IPs |-> IF ip \notin Known(d) /\ @[ip] > StaleAfter THEN SeenLim ELSE @[ip] ],
             !.outs = [ ip \in IPs |-> IF ip \notin Known(d) /\ gg.heard[ip] > StaleAfter THEN {} ELSE @[ip] ],
             !.ins = [ ip \in IPs |-> IF ip \notin Known(d) /\ gg.heard[ip] > StaleAfter THEN {} ELSE @[ip] ],
             !.clash = @ \/ Clash(d)]

DoAnnounce(ip, outs, ins) ==
  LET d == Announce(c, ip, outs, ins, 0, 0) IN
  /\ Unlocked
  /\ Clashes \/ ~Clash(d)
  /\ c' = d
  /\ g' = [Reg(d, g) EXCEPT !.heard[ip] = 0, !.outs[ip] = outs, !.ins[ip] = ins]
  /\ tx' = None
  /\ UNCHANGED <<todo, pend, pollAge>>

DoWrite(a, f) ==
  /\ Unlocked /\ Engine
  /\ c' = Write(c, a, f)
  /\ LET hit == { p \in PairsOf : p[2] = a /\ RoutedP(c, p[1], a) /\ a \in DOMAIN c.out /\ c.out[a] = p[1] } IN
     g' = [g EXCEPT !.want = [ p \in PairsOf |-> IF p \in hit THEN f ELSE @[p] ],
                    !.unsent = [ p \in PairsOf |-> IF p \in hit /\ @[p] < 0 THEN 0 ELSE @[p] ],
                    !.touched = [ p \in PairsOf |-> IF p[2] = a THEN TRUE ELSE @[p] ]]
  /\ tx' = None
  /\ UNCHANGED <<todo, pend, pollAge>>

Back(x, lim) == IF x = Never THEN Never ELSE IF x - 1 < -lim THEN -lim ELSE x - 1
Up(x, lim) == IF x < 0 THEN x ELSE IF x + 1 > lim THEN lim ELSE x + 1

Tick ==
  /\ todo = {} /\ pend = {}
  /\ c' = [c EXCEPT !.nodes = [ ip \in DOMAIN @ |->
              [@[ip] EXCEPT !.seen = Back(@, SeenLim),
                            !.buf = [ a \in DOMAIN @ |-> [@[a] EXCEPT !.last = Back(@, Lim)] ]] ]]
  /\ pollAge' = (pollAge + 1) % PollEvery
  /\ todo' = (IF Engine THEN {"dmx"} ELSE {}) \cup (IF pollAge + 1 = PollEvery THEN {"gc", "poll"} ELSE {})
  /\ g' = [g EXCEPT !.heard = [ ip \in IPs |-> Up(@[ip], SeenLim) ],
                    !.lastTx = [ p \in PairsOf |-> Up(@[p], Lim) ],
                    !.unsent = [ p \in PairsOf |-> Up(@[p], 3) ],
                    !.routedAge = [ p \in PairsOf |-> Up(@[p], 3) ]]
  /\ tx' = None
  /\ UNCHANGED pend

GcPass ==
  /\ "gc" \in todo /\ Unlocked
  /\ c' = Gc(c, 0, K)
  /\ g' = Reg(Gc(c, 0, K), g)
  /\ todo' = todo \ {"gc"} /\ tx' = None /\ UNCHANGED <<pend, pollAge>>

PollPass == /\ "poll" \in todo /\ todo' = todo \ {"poll"} /\ tx' = None
            /\ UNCHANGED <<c, pend, pollAge, g>>

DmxPass == /\ "dmx" \in todo /\ Unlocked
           /\ pend' = DueAt(c, 0, K) /\ todo' = todo \ {"dmx"} /\ tx' = None
           /\ UNCHANGED <<c, pollAge, g>>

DmxOne(a) ==
  /\ a \in pend
  /\ LET ip == c.out[a]
         d == Datagram(c, ip, a, K) IN
     /\ tx' = [to |-> ip, addr |-> a, seq |-> d.seq, frame |-> d.frame, gap |-> g.lastTx[<<ip, a>>],
               idle |-> ~g.touched[<<ip, a>>], first |-> FALSE, prev |-> g.seq[ip]]
     /\ c' = Sent(c, ip, a, 0, K)
     /\ g' = [g EXCEPT !.lastTx[<<ip, a>>] = 0, !.unsent[<<ip, a>>] = -1, !.touched[<<ip, a>>] = FALSE,
                       !.seq[ip] = d.seq]
  /\ pend' = pend \ {a}
  /\ UNCHANGED <<todo, pollAge>>

Next == \/ \E ip \in IPs, outs \in SUBSET Addrs, ins \in SUBSET Ins : DoAnnounce(ip, outs, ins)
        \/ \E a \in Addrs, f \in Frames : DoWrite(a, f)
        \/ Tick \/ GcPass \/ PollPass \/ DmxPass
        \/ \E a \in Addrs : DmxOne(a)
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Tick) /\ WF_vars(GcPass) /\ WF_vars(PollPass) /\ WF_vars(DmxPass)
             /\ \A a \in Addrs : WF_vars(DmxOne(a))

Sending == tx.to # "none"
\* C01
RightNode == Sending => tx.to \in Known(c) /\ tx.addr \in g.outs[tx.to]
RightFrame == Sending /\ ~g.clash => tx.frame = g.want[<<tx.to, tx.addr>>]
\* C02 (one interval: the pass at the next tick; the second interval is never completed)
Prompt == ~g.clash => \A p \in PairsOf : g.unsent[p] <= 1 /\
            (todo = {} /\ pend = {} => g.unsent[p] <= 0)
KeptAlive == ~g.clash /\ Engine => \A p \in PairsOf : RoutedP(c, p[1], p[2]) /\ todo = {} /\ pend = {} =>
               g.lastTx[p] <= Force \/ g.routedAge[p] = 0
\* C03
RateLimit == Sending => tx.gap >= 1 /\ (tx.idle => tx.gap > Force)
\* C04
Sequence == Sending => tx.seq \in 1..SeqMax /\ tx.seq = (tx.prev % SeqMax) + 1
\* C05
Fresh == \A ip \in IPs : g.heard[ip] <= StaleAfter => ip \in Known(c)
Gone == \A ip \in IPs : g.heard[ip] >= StaleAfter + PollEvery /\ "gc" \notin todo => ip \notin Known(c)
Latest == \A ip \in Known(c) : c.nodes[ip].outs = g.outs[ip] /\ c.nodes[ip].ins = g.ins[ip]
\* C06
Mirror == ~g.clash =>
  /\ DOMAIN c.out = AllOuts(c) /\ \A a \in DOMAIN c.out : a \in c.nodes[c.out[a]].outs
  /\ DOMAIN c.in = AllIns(c) /\ \A a \in DOMAIN c.in : a \in c.nodes[c.in[a]].ins
NoStray == /\ \A a \in DOMAIN c.out : c.out[a] \in Known(c) /\ a \in g.outs[c.out[a]]
           /\ \A a \in DOMAIN c.in : c.in[a] \in Known(c) /\ a \in g.ins[c.in[a]]
\* C07
Polls == [](("poll" \in todo) => <>("poll" \notin todo))
PollsAgain == []<>("poll" \in todo)
TypeOK == /\ todo \subseteq {"dmx", "gc", "poll"} /\ pend \subseteq DOMAIN c.out
          /\ \A a \in DOMAIN c.out : a \in DOMAIN c.nodes[c.out[a]].buf
=============================================================================
