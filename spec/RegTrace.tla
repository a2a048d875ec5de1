----------------------------- MODULE RegTrace -----------------------------
(* Conformance of package code (and Address) with Registers.tla: one line   *)
(* per register value with the results of all setters, getters and String,  *)
(* one line per code table, one per Net of the address space.               *)
EXTENDS Registers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fails
tvars == <<l, fails, reg, val, last>>

F(c, ok) == IF ok THEN {} ELSE {<<"C17", c>>}

CheckReg(e) ==
  LET r == e.reg  v == e.v IN
  UNION { LET f == Flags[r][i] IN
          F("getter " \o r \o "." \o f.name, e.get[f.name] = GetFlag(v, f)) \cup
          F("set " \o r \o "." \o f.name, e.set[f.name][1] = SetFlag(v, f, TRUE)) \cup
          F("clear " \o r \o "." \o f.name, e.set[f.name][2] = SetFlag(v, f, FALSE))
          : i \in 1..Len(Flags[r]) } \cup
  UNION { LET n == Enums[r][i] IN
          F("getter " \o r \o "." \o n.name,
            IF Defined(v, n) THEN e.eget[n.name] = GetEnum(v, n) ELSE \A j \in 1..Len(n.vals) : e.eget[n.name] # n.vals[j]) \cup
          UNION { F("set " \o r \o "." \o n.name \o " " \o n.vals[j], e.eset[n.name][j] = SetEnum(v, n, j))
                  : j \in 1..Len(n.vals) }
          : i \in 1..Len(Enums[r]) } \cup
  LET g(i) == e.eget[Enums[r][i].name] IN F("text " \o r, e.str = TextWith(r, v, g))

CheckTable(e) ==
  LET k == e.table  tf == TableFun(k) IN
  F("names " \o k, \A c \in DOMAIN tf : e.names[c + 1] = Table(k)[tf[c]][2]) \cup
  F("other names " \o k, \A c \in 0..(e.n - 1) : c \notin DOMAIN tf => e.names[c + 1] \notin Names(k)) \cup
  (IF k \in {"OpCode", "StyleCode"}
   THEN F("valid " \o k, \A c \in 0..(e.n - 1) : e.valid[c + 1] = (c \in DOMAIN tf)) ELSE {})

CheckAddr(e) ==
  F("address integer", \A s \in 0..255 : e.ints[s + 1] = AddrInt(e.net, s)) \cup
  F("address text", \A s \in 0..255 : e.texts[s + 1] = AddrText(e.net, s))

Check(e) == CASE e.ev = "reg" -> CheckReg(e)
              [] e.ev = "table" -> CheckTable(e)
              [] e.ev = "addr" -> CheckAddr(e)
              [] OTHER -> {}

TInit == l = 1 /\ fails = {} /\ reg = "TalkToMe" /\ val = 0 /\ last = None
TStep == /\ l <= Len(Trace)
         /\ fails' = Check(Trace[l])
         /\ l' = l + 1
         /\ UNCHANGED <<reg, val, last>>
TSpec == TInit /\ [][TStep]_tvars
Conforms == fails = {}
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
Short == [line |-> l - 1, fails |-> fails]
=============================================================================
