----------------------------- MODULE RuntimeGen -----------------------------
(***************************************************************************)
(* Histories of the environment of Runtime.tla, for replay into the real   *)
(* code: what arrived, failed, stalled, and when Stop was called; with     *)
(* each event whether the library was idle before it, and how many steps   *)
(* the library took since it was idle last (Stop is called in the middle   *)
(* of things: the real code is stopped at a scheduling point that many     *)
(* further on).                                                            *)
(***************************************************************************)
EXTENDS Runtime, Integers, Json, IOUtils

CONSTANTS Length, Tempo   \* the library takes Tempo - 1 steps of Tempo

VARIABLES hist, steps
gvars == <<vars, hist, steps>>

GInit == Init /\ hist = << >> /\ steps = 0

Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Idle == ~ENABLED Lib
Note(e) == LET q == Idle IN hist' = Append(hist, [e |-> e, idle |-> q, steps |-> IF q THEN 0 ELSE steps]) /\ steps' = (IF q THEN 0 ELSE steps)

\* Environment and library take turns at random; bursts are long enough to fill the channels.
Weather ==
  \E r \in Pick(1..40) :
  CASE r <= 10 /\ budget.rx > 0 -> Deliver("poll") /\ Note("poll")
    [] r \in 11..18 /\ budget.rx > 0 -> Deliver("app") /\ Note("app")
    [] r \in 19..22 /\ budget.rx > 0 -> Deliver("junk") /\ Note("junk")
    [] r \in 23..25 /\ budget.rx > 0 -> Deliver("own") /\ Note("own")
    [] r \in 26..27 /\ budget.stalls > 0 /\ ~stalled -> Stall /\ Note("stall")
    [] r \in 28..30 /\ stalled -> Resume /\ Note("resume")
    [] r \in 31..33 /\ budget.errs > 0 /\ pc["reader"] = "read" -> ReadFails /\ Note("readerror")
    [] r \in 34..37 /\ pc["sender"] = "write" /\ ~stalled /\ budget.errs > 0 -> SendFails /\ Note("writeerror")
    [] r = 38 /\ Len(hist) > Length \div 3 -> StopCalled /\ Note("stop")
    [] r > 38 /\ running > 0 -> CallbackEnds /\ UNCHANGED <<hist, steps>>
    [] OTHER -> UNCHANGED gvars
Works == Lib /\ steps' = steps + 1 /\ UNCHANGED hist

Finish == /\ Len(hist) >= Length \/ pc["stop"] = "returned"
          /\ steps >= 0
          /\ Serialize(ToJson(hist) \o "\n", IOEnv.BEHAVIOURS,
                       [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
          /\ steps' = -1 /\ UNCHANGED <<vars, hist>>
GNext == /\ steps >= 0
         /\ IF Len(hist) >= Length \/ pc["stop"] = "returned" THEN Finish
            ELSE IF pc["stop"] # "idle" THEN Works
            ELSE \E b \in Pick(1..Tempo) : IF b = 1 \/ Idle THEN Weather ELSE Works
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
