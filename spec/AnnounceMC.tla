---------------------------- MODULE AnnounceMC ----------------------------
(***************************************************************************)
(* A node announces itself, a controller reconstructs the configuration:   *)
(* checked for a finite family of configurations that covers every count   *)
(* of ports, every protocol and mixtures at one index.  The family is also *)
(* written out and replayed into the real code.                            *)
(***************************************************************************)
EXTENDS Announce, Json, IOUtils, SequencesExt

CONSTANTS MaxPorts, Protos, Unis, Bases

Port(b, u, pt, st) == [addr |-> (b \div 16) * 16 + u, type |-> pt, status |-> st]

\* n ports of protocol p, but number k of protocol q
Ports(b, n, p, q, k, u, st) ==
  [ i \in 1..n |-> Port(b, (u + i) % 16, IF i = k THEN q ELSE p, (st + 8 * i) % 256) ]

Case(b, ni, no, pi, po, qo, k, u) ==
  [ oem |-> 4660 + ni, version |-> 513, bios |-> 7, manufacturer |-> <<97, 98>>, style |-> 0,
    name |-> <<110, 49>>, description |-> <<110, 111, 100, 101>>, report |-> <<1, 6>>,
    mac |-> <<2, 3, 4, 5, 6, 7>>, ip |-> <<2, 0, 0, 5>>, bindip |-> <<2, 0, 0, 6>>, bindindex |-> 1,
    port |-> ArtNetPort, status1 |-> 197, status2 |-> 30, base |-> b,
    inputs |-> Ports(b, ni, pi, pi, 0, u, 4), outputs |-> Ports(b, no, po, qo, k, u + 3, 128) ]

Counts == 0..MaxPorts
\* all outputs of protocol po, but the k-th of protocol qo
Cases == { Case(b, ni, no, pi, po, qo, k, u) :
             b \in Bases, ni \in Counts, no \in Counts, pi \in Protos, po \in Protos, qo \in {0},
             k \in {0}, u \in Unis }
         \cup { Case(b, ni, no, pi, po, pi, k, u) :
             b \in Bases, ni \in Counts, no \in Counts, pi \in Protos, po \in Protos,
             k \in 1..4, u \in Unis }
         \cup { Case(b, ni, no, pi, pi, qo, k, u) :
             b \in Bases, ni \in Counts, no \in Counts, pi \in Protos, qo \in Protos,
             k \in 1..4, u \in Unis }

ASSUME "CASES" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.CASES, SetToSeq(Cases))

VARIABLES cfg, state, wire, back
vars == <<cfg, state, wire, back>>

Init == cfg \in Cases /\ state = "down" /\ wire = << >> /\ back = << >>
Start == state = "down" /\ state' = (IF Startable(cfg) THEN "up" ELSE "refused") /\ UNCHANGED <<cfg, wire, back>>
Announce == state = "up" /\ state' = "announced" /\ wire' = ReplyBytes(cfg) /\ UNCHANGED <<cfg, back>>
Learn == /\ state = "announced" /\ Accept(wire)
         /\ back' = ToConfig(Fields("ArtPollReplyPacket", wire))
         /\ state' = "known" /\ UNCHANGED <<cfg, wire>>
Next == Start \/ Announce \/ Learn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Faithful == state = "known" => Preserved(cfg, back)
Announced == state = "announced" =>
  /\ Accept(wire)
  /\ LET f == Fields("ArtPollReplyPacket", wire) IN
     /\ f.NumPorts[1] = NumPorts(cfg)
     /\ \A i \in 1..4 : /\ IsOutput(f.PortTypes[i]) = (i <= Len(cfg.outputs))
                        /\ IsInput(f.PortTypes[i]) = (i <= Len(cfg.inputs))
RefusedRight == state = "refused" => ~Startable(cfg)
Ends == <>(state \in {"known", "refused"})
=============================================================================
