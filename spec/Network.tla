------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* Controllers and nodes of this library on one network: each controller   *)
(* runs Controller.tla, each node answers polls, and the network delivers  *)
(* every datagram within D units of time, in any order.  Hosts start and   *)
(* stop at any time, nodes with any of their port configurations.          *)
(*                                                                         *)
(* C21: they find each other and DMX gets through.                         *)
(*                                                                         *)
(* Time as in ControllerMC: one unit is one frame interval, the present is *)
(* 0, Tick shifts everything into the past.                                *)
(***************************************************************************)
EXTENDS Controller

CONSTANTS Ctrls, Nodes, Ports, Frames, D, Force, PollEvery, StaleAfter, CtrlsStop

\* Ports[n]: the sets of output addresses node n may be started with
Addrs == UNION UNION { Ports[x] : x \in Nodes }
K == [force |-> Force, poll |-> PollEvery, stale |-> StaleAfter, seqmax |-> 1]

VARIABLES reg,      \* controller -> its registry (Controller.tla)
          todo,     \* controller -> activities due at this instant
          pollAge,  \* controller -> since its last poll (-1: not running)
          node,     \* node -> [up, outs]
          net,      \* datagrams on their way
          gh        \* what the properties speak about
vars == <<reg, todo, pollAge, node, net, gh>>

Lim == StaleAfter + PollEvery + (3 * D) + 2
Pairs == Ctrls \X Nodes
CA == Ctrls \X Addrs

\* gh.both[c, n]: both are running since (-1: they are not); gh.off[n]: not running since;
\* gh.want[c, a]: frame given (0: none since the node there was found); gh.wrote: when; gh.due: not arrived since (-1: nothing);
\* gh.gap[c, a]: no datagram arrived since (-1: not waiting for any); gh.bad: a datagram arrived that should not exist
Init == /\ reg = [ x \in Ctrls |-> Empty ] /\ todo = [ x \in Ctrls |-> {} ] /\ pollAge = [ x \in Ctrls |-> -1 ]
        /\ node = [ x \in Nodes |-> [up |-> FALSE, outs |-> {}] ] /\ net = {}
        /\ gh = [both |-> Const(Pairs, -1), off |-> Const(Nodes, Lim), want |-> Const(CA, 0), wrote |-> Const(CA, Lim), due |-> Const(CA, -1), gap |-> Const(CA, -1), bad |-> FALSE]

Running(x) == pollAge[x] >= 0
Msg(k, from, to, outs, a, f) == [k |-> k, from |-> from, to |-> to, age |-> 0, outs |-> outs, a |-> a, f |-> f]

\* c has n for certain
\* (an answer from its earlier life may overtake the first one of this life: D more than a poll and its answer)
Found(x, n) == gh.both[<<x, n>>] > PollEvery + (3 * D)
Owner(a) == CHOOSE n \in Nodes : \E s \in Ports[n] : a \in s

StartCtrl(x) == /\ ~Running(x)
                /\ reg' = [reg EXCEPT ![x] = Empty] /\ todo' = [todo EXCEPT ![x] = {"poll"}] /\ pollAge' = [pollAge EXCEPT ![x] = 0]
                /\ gh' = [gh EXCEPT !.both = [ p \in Pairs |-> IF p[1] = x /\ node[p[2]].up THEN 0 ELSE @[p] ]]
                /\ UNCHANGED <<node, net>>
StopCtrl(x) == /\ CtrlsStop /\ Running(x)
               /\ reg' = [reg EXCEPT ![x] = Empty] /\ todo' = [todo EXCEPT ![x] = {}] /\ pollAge' = [pollAge EXCEPT ![x] = -1]
               /\ gh' = [gh EXCEPT !.both = [ p \in Pairs |-> IF p[1] = x THEN -1 ELSE @[p] ],
                                   !.want = [ p \in CA |-> IF p[1] = x THEN 0 ELSE @[p] ],
                                   !.wrote = [ p \in CA |-> IF p[1] = x THEN 0 ELSE @[p] ],
                                   !.due = [ p \in CA |-> IF p[1] = x THEN -1 ELSE @[p] ],
                                   !.gap = [ p \in CA |-> IF p[1] = x THEN -1 ELSE @[p] ]]
               /\ UNCHANGED <<node, net>>
StartNode(n, s) == /\ ~node[n].up
                   /\ node' = [node EXCEPT ![n] = [up |-> TRUE, outs |-> s]]
                   /\ gh' = [gh EXCEPT !.both = [ p \in Pairs |-> IF p[2] = n /\ Running(p[1]) THEN 0 ELSE @[p] ]]
                   /\ UNCHANGED <<reg, todo, pollAge, net>>
StopNode(n) == /\ node[n].up
               /\ node' = [node EXCEPT ![n] = [up |-> FALSE, outs |-> {}]]
               /\ gh' = [gh EXCEPT !.both = [ p \in Pairs |-> IF p[2] = n THEN -1 ELSE @[p] ], !.off = [@ EXCEPT ![n] = 0],
                                   !.want = [ p \in CA |-> IF Owner(p[2]) = n THEN 0 ELSE @[p] ],
                                   !.wrote = [ p \in CA |-> IF Owner(p[2]) = n THEN 0 ELSE @[p] ],
                                   !.due = [ p \in CA |-> IF Owner(p[2]) = n THEN -1 ELSE @[p] ],
                                   !.gap = [ p \in CA |-> IF Owner(p[2]) = n THEN -1 ELSE @[p] ]]
               /\ UNCHANGED <<reg, todo, pollAge, net>>

DoWrite(x, a, f) ==
  /\ Running(x)
  /\ reg' = [reg EXCEPT ![x] = Write(@, a, f)]
  /\ LET sure == Found(x, Owner(a)) /\ a \in node[Owner(a)].outs IN
     gh' = [gh EXCEPT !.want[<<x, a>>] = IF sure THEN f ELSE @, !.wrote[<<x, a>>] = 0,
                      !.due[<<x, a>>] = IF sure THEN 0 ELSE @]
  /\ UNCHANGED <<todo, pollAge, node, net>>

Poll(x) == /\ "poll" \in todo[x] /\ todo' = [todo EXCEPT ![x] = @ \ {"poll"}]
           /\ net' = net \cup { Msg("poll", x, n, {}, 0, 0) : n \in Nodes }
           /\ UNCHANGED <<reg, pollAge, node, gh>>
Clean(x) == /\ "gc" \in todo[x] /\ todo' = [todo EXCEPT ![x] = @ \ {"gc"}]
            /\ reg' = [reg EXCEPT ![x] = Gc(@, 0, K)]
            /\ UNCHANGED <<pollAge, node, net, gh>>
RECURSIVE SentAll(_, _)
SentAll(r, S) == IF S = {} THEN r ELSE LET a == CHOOSE a \in S : TRUE IN SentAll(Sent(r, r.out[a], a, 0, K), S \ {a})
Dmx(x) == /\ "dmx" \in todo[x] /\ todo' = [todo EXCEPT ![x] = @ \ {"dmx"}]
          /\ LET r == reg[x]  S == DueAt(r, 0, K) IN
             /\ net' = net \cup { Msg("dmx", x, r.out[a], {}, a, r.nodes[r.out[a]].buf[a].frame) : a \in S }
             /\ reg' = [reg EXCEPT ![x] = SentAll(r, S)]
          /\ UNCHANGED <<pollAge, node, gh>>

Arrive(m) ==
  /\ m \in net
  /\ IF m.k = "poll"
     THEN /\ net' = (net \ {m}) \cup (IF node[m.to].up THEN { Msg("reply", m.to, x, node[m.to].outs, 0, 0) : x \in Ctrls } ELSE {})
          /\ UNCHANGED <<reg, gh>>
     ELSE IF m.k = "reply"
     THEN /\ net' = net \ {m}
          /\ reg' = (IF Running(m.to) THEN [reg EXCEPT ![m.to] = Announce(@, m.from, m.outs, {}, 0, 0)] ELSE reg)
          /\ UNCHANGED gh
     ELSE /\ net' = net \ {m} /\ UNCHANGED reg
          /\ LET p == <<m.from, m.a>>
                 listed == m.a \in node[m.to].outs
                 sure == Found(m.from, m.to) /\ listed
             IN gh' = IF ~node[m.to].up THEN gh
                      ELSE [gh EXCEPT !.due[p] = IF m.f = gh.want[p] THEN -1 ELSE @, !.gap[p] = IF @ >= 0 THEN 0 ELSE @,
                                      !.bad = @ \/ (sure /\ gh.want[p] # 0 /\ m.f # gh.want[p] /\ gh.wrote[p] > D)
                                                \/ (~listed /\ \A x \in Ctrls : gh.both[<<x, m.to>>] > PollEvery + (4 * D))]
  /\ UNCHANGED <<todo, pollAge, node>>

Back(x, lim) == IF x = Never THEN Never ELSE IF x - 1 < -lim THEN -lim ELSE x - 1
Up(x, lim) == IF x < 0 THEN x ELSE IF x + 1 > lim THEN lim ELSE x + 1
Tick ==
  /\ \A x \in Ctrls : todo[x] = {}
  /\ \A m \in net : m.age < D
  /\ net' = { [m EXCEPT !.age = @ + 1] : m \in net }
  /\ reg' = [ x \in Ctrls |-> IF ~Running(x) THEN Empty ELSE [reg[x] EXCEPT !.nodes = [ n \in DOMAIN @ |->
              [@[n] EXCEPT !.seen = Back(@, Lim), !.buf = [ a \in DOMAIN @ |-> [@[a] EXCEPT !.last = Back(@, Force + 2)] ]] ]] ]
  /\ pollAge' = [ x \in Ctrls |-> IF Running(x) THEN (pollAge[x] + 1) % PollEvery ELSE -1 ]
  /\ todo' = [ x \in Ctrls |-> IF ~Running(x) THEN {} ELSE (IF Frames = {} THEN {} ELSE {"dmx"}) \cup (IF pollAge[x] + 1 = PollEvery THEN {"poll", "gc"} ELSE {}) ]
  /\ gh' = [gh EXCEPT !.both = [ p \in Pairs |-> Up(@[p], Lim) ],
                      !.gap = [ p \in CA |-> IF @[p] >= 0 THEN Up(@[p], Force + D + 3)
                                              ELSE IF Frames # {} /\ Found(p[1], Owner(p[2])) /\ p[2] \in node[Owner(p[2])].outs THEN 0 ELSE -1 ], !.off = [ n \in Nodes |-> Up(@[n], Lim) ],
                      !.wrote = [ p \in CA |-> Up(@[p], Lim) ], !.due = [ p \in CA |-> Up(@[p], D + 3) ]]
  /\ UNCHANGED node

Next == \/ \E x \in Ctrls : StartCtrl(x) \/ StopCtrl(x) \/ Poll(x) \/ Clean(x) \/ Dmx(x) \/ \E a \in Addrs, f \in Frames : DoWrite(x, a, f)
        \/ \E n \in Nodes : StopNode(n) \/ \E s \in Ports[n] : StartNode(n, s)
        \/ \E m \in net : Arrive(m)
        \/ Tick
Spec == Init /\ [][Next]_vars

\* every node that runs long enough is known, with its ports
Finds == \A p \in Pairs : Found(p[1], p[2]) =>
           /\ p[2] \in Known(reg[p[1]]) /\ reg[p[1]].nodes[p[2]].outs = node[p[2]].outs
           /\ \A a \in node[p[2]].outs : a \in DOMAIN reg[p[1]].out /\ reg[p[1]].out[a] = p[2]
\* and one that does not is forgotten
Forgets == \A x \in Ctrls, n \in Nodes : Running(x) /\ ~node[n].up /\ gh.off[n] > StaleAfter + PollEvery + D => n \notin Known(reg[x])
\* frames arrive
Arrives == \A p \in CA : gh.due[p] <= D + 1
\* and are repeated
Keeps == \A p \in CA : gh.gap[p] <= Force + 1 + D
\* where they belong, and nothing else does
Right == ~gh.bad
TypeOK == \A m \in net : m.age <= D
=============================================================================
