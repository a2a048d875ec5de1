----------------------------- MODULE AnnTrace -----------------------------
(* Conformance of config.go with Announce.tla.                              *)
EXTENDS Announce, Json, IOUtils
CONSTANT Property
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fails
vars == <<l, fails>>
F(p, c, ok) == IF ok THEN {} ELSE {<<p, c>>}

SameFields(f, g) == \A n \in DOMAIN g : n \in DOMAIN f /\ f[n] = g[n]

\* a configuration taken through ArtPollReplyFromConfig, the wire, and back
CheckAnn(e) ==
  F("C09", "panic", ~e.panic) \cup
  (IF e.panic \/ ~Startable(e.c) THEN {} ELSE
   F("C09", "announcement is well formed", e.ok /\ Accept(e.b)) \cup
   (IF e.ok /\ Accept(e.b) THEN
      F("C09", "announced fields", Fields("ArtPollReplyPacket", e.b) = FromConfig(e.c)) \cup
      F("C09", "reconstructed configuration", Preserved(e.c, e.r)) \cup
      F("C19", "announced ports", LET f == Fields("ArtPollReplyPacket", e.b) IN
          /\ f.NumPorts[1] = NumPorts(e.c)
          /\ f.PortTypes = [ i \in 1..4 |-> PortTypeAt(e.c, i) ])
    ELSE {}))

\* a received ArtPollReply of any content
CheckConf(e) ==
  F("C09", "panic", ~e.panic) \cup
  (IF e.panic THEN {} ELSE
   LET r == ToConfig(Fields("ArtPollReplyPacket", e.b)) IN
   F("C09", "reconstructed ports", e.r.inputs = r.inputs /\ e.r.outputs = r.outputs) \cup
   F("C09", "reconstructed fields", \A n \in DOMAIN r : e.r[n] = r[n]))

\* Start of a node with the configuration; reply: bytes answered to a poll
CheckStart(e) ==
  LET good == Startable(e.c) IN
  F("C19", "panic", ~e.panic) \cup
  (IF e.panic THEN {} ELSE
   F("C19", "startable", e.started = good) \cup
   F("C19", "no socket when refused", good \/ e.opened = 0) \cup
   (IF good /\ e.started THEN
      F("C09", "announcement", e.replies = 1 /\ e.b = ReplyBytes(e.c)) \cup
      F("C19", "announced ports",
         /\ e.replies = 1 /\ Accept(e.b)
         /\ LET f == Fields("ArtPollReplyPacket", e.b) IN
            /\ f.NumPorts[1] = NumPorts(e.c)
            /\ f.PortTypes = [ i \in 1..4 |-> PortTypeAt(e.c, i) ])
    ELSE {}))

Check(e) == CASE e.ev = "ann" -> CheckAnn(e)
              [] e.ev = "conf" -> CheckConf(e)
              [] e.ev = "start" -> CheckStart(e)
              [] OTHER -> {}

Init == l = 1 /\ fails = {}
Step == /\ l <= Len(Trace)
        /\ fails' = { x \in Check(Trace[l]) : x[1] = Property }
        /\ l' = l + 1
Spec == Init /\ [][Step]_vars
Conforms == fails = {}
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
Short == [line |-> l - 1, fails |-> fails]
=============================================================================
