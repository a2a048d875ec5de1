---------------------------- MODULE CodecTrace ----------------------------
(***************************************************************************)
(* Conformance of recorded parse / marshal operations of package packet    *)
(* with Wire.tla.  One trace line is one operation (or one sweep of        *)
(* operations) of the real code.  fails holds <<property, clause>> pairs.  *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

CONSTANT Property
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l,      \* next line
          objs,   \* packets under observation: id -> [type, f]
          fails
vars == <<l, objs, fails>>

F(p, c, ok) == IF ok THEN {} ELSE {<<p, c>>}

SameFields(ty, f, g) == \A n \in FieldNames(ty) : n \in DOMAIN f /\ f[n] = g[n]

ParseOK(e) == IF e.via = "Unmarshal" THEN Accept(e.b) ELSE AcceptAs(e.via, e.b)

CheckParse(e) ==
  F("C14", "panic", ~e.panic) \cup
  F("C14", "acceptance", e.ok = ParseOK(e)) \cup
  (IF e.ok /\ Accept(e.b) THEN
     F("C14", "type", e.type = TypeOf(e.b)) \cup
     (IF e.type = TypeOf(e.b) THEN F("C14", "fields", SameFields(e.type, e.f, Fields(e.type, e.b)))
                                \cup F("C14", "opcode accessor", e.op = OpOf[e.type])
      ELSE {})
   ELSE {})

Set(s) == { s[i] : i \in 1..Len(s) }
Cell(b, o, v) == [ b EXCEPT ![o + 1] = v ]

CheckOpSweep(e) ==
  LET B(o) == [ i \in 1..201 |-> IF i = 9 THEN o % 256 ELSE IF i = 10 THEN o \div 256
                                 ELSE IF i = 201 THEN e.b201 ELSE IF i <= 24 THEN e.b[i] ELSE 0 ]
      want == { o \in ImplOps : AcceptN(B(o), e.n) }   \* no other opcode is accepted
  IN F("C14", "panic", e.panic = << >>) \cup
     F("C14", "acceptance", Set(e.acc) = want) \cup
     F("C14", "type", \A i \in 1..Len(e.acc) : e.acc[i] \in ImplOps => e.types[i] = TypeOfOp(e.acc[i]))

CheckLenSweep(e) ==
  LET want == { k \in 0..Len(e.b) : LET c == SubSeq(e.b, 1, k) IN
                   IF e.via = "Unmarshal" THEN Accept(c) ELSE AcceptAs(e.via, c) }
  IN F("C14", "panic", e.panic = << >>) \cup F("C14", "acceptance", Set(e.acc) = want)

CheckByteSweep(e) ==
  LET ok(c) == AcceptN(c, e.n) /\ (e.via = "Unmarshal" \/ LE(c, 8) = OpOf[e.via])
      want == IF e.off < Len(e.b) THEN { v \in 0..255 : ok(Cell(e.b, e.off, v)) }
              ELSE IF ok(e.b) THEN 0..255 ELSE {}      \* a byte no rule looks at
  IN F("C14", "panic", e.panic = << >>) \cup F("C14", "acceptance", Set(e.acc) = want)

CheckWordSweep(e) ==
  LET ok(c) == AcceptN(c, e.n) /\ (e.via = "Unmarshal" \/ LE(c, 8) = OpOf[e.via])
      want == { v \in 0..65535 : ok([ e.b EXCEPT ![e.off + 1] = v \div 256, ![e.off + 2] = v % 256 ]) # e.neg }
  IN F("C14", "panic", e.panic = << >>) \cup F("C14", "acceptance", Set(e.acc) = want)

CheckDmxSweep(e) ==
  LET want == { x \in 0..1024 : AcceptN([ e.b EXCEPT ![17] = x \div 256, ![18] = x % 256 ], e.n) }
  IN F("C14", "panic", e.panic = << >>) \cup F("C14", "acceptance", Set(e.acc) = want)

CheckMarshal(e) ==
  F("C15", "marshal succeeds", e.ok /\ ~e.panic) \cup
  (IF e.ok /\ ~e.panic THEN
     F("C15", "layout", e.b = Encode(e.type, e.in)) \cup
     (IF e.type # "ArtPollReplyPacket" \/ e.in.Style[1] \in DefinedStyles THEN
        F("C15", "parses back", e.pok /\ e.ptype = e.type) \cup
        (IF e.pok /\ e.ptype = e.type
         THEN F("C15", "same fields", SameFields(e.type, e.pf, Canonical(e.type, e.in))) ELSE {})
      ELSE {})
   ELSE {})

(* C16: a history of operations on packets that stay around.                 *)
CheckHMarshal(e) ==
  LET o == objs[e.o] IN
  F("C16", "marshal succeeds", e.ok /\ ~e.panic) \cup
  (IF e.ok /\ ~e.panic THEN
     F("C16", "same bytes", e.b = Encode(o.type, o.f)) \cup
     F("C16", "packet unchanged", SameFields(o.type, e.f, o.f)) \cup
     F("C16", "opcode accessor unchanged", e.op = o.op)
   ELSE {})

CheckHParse(e) == F("C16", "panic", ~e.panic) \cup
  F("C16", "parsed", e.ok = AcceptAs(e.type, e.b)) \cup
  (IF e.ok /\ AcceptAs(e.type, e.b)
   THEN F("C16", "parsed fields", SameFields(e.type, e.f, Fields(e.type, e.b))) ELSE {})

Check(e) ==
  CASE e.ev = "parse" -> CheckParse(e)
    [] e.ev = "opsweep" -> CheckOpSweep(e)
    [] e.ev = "lensweep" -> CheckLenSweep(e)
    [] e.ev = "bytesweep" -> CheckByteSweep(e)
    [] e.ev = "wordsweep" -> CheckWordSweep(e)
    [] e.ev = "dmxsweep" -> CheckDmxSweep(e)
    [] e.ev = "marshal" -> CheckMarshal(e)
    [] e.ev = "hmarshal" -> CheckHMarshal(e)
    [] e.ev = "hparse" -> CheckHParse(e)
    [] e.ev = "hkept" -> F("C16", "bytes returned earlier stay the same", e.was = e.now)
    [] e.ev = "hlook" -> F("C16", "packet unchanged", SameFields(e.type, e.f, objs[e.o].f))
    [] OTHER -> {}

Init == l = 1 /\ objs = << >> /\ fails = {}

Step ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     /\ fails' = { x \in Check(e) : x[1] = Property }
     /\ objs' = IF e.ev \in {"hnew", "hmarshal", "hparse"}
                THEN LET keep == IF e.ev = "hnew" THEN << >> ELSE objs
                         \* objects of an older history are dropped with the first "hnew" of the next
                         base == IF e.ev = "hnew" /\ e.o \notin DOMAIN objs /\ Cardinality(DOMAIN objs) < 3
                                 THEN objs ELSE keep
                     IN (e.o :> [type |-> e.type, f |-> e.f, op |-> e.op]) @@ base
                ELSE objs
  /\ l' = l + 1

Spec == Init /\ [][Step]_vars
Conforms == fails = {}
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
Short == [line |-> l - 1, fails |-> fails]
=============================================================================
