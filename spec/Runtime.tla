------------------------------ MODULE Runtime ------------------------------
(***************************************************************************)
(* The goroutines and channels of one life of a node (Ctrl = FALSE) or of  *)
(* a controller (Ctrl = TRUE), from Start to the return of Stop.           *)
(*                                                                         *)
(*   socket -> reader -> recv -> handler -> (a goroutine per packet)       *)
(*      polls   -> pollq  -> replier -> sendq -> sender -> socket          *)
(*      replies -> replyq -> engine (controller: registry under the lock)  *)
(*      others  -> callback of the user                                    *)
(*   engine (polls on its ticks) and lights (DMX, under the lock) -> sendq *)
(*                                                                         *)
(* The environment delivers datagrams, fails reads and writes, stalls the  *)
(* network, runs callbacks of any length and calls Stop at any point.      *)
(* Channels hold Cap entries (10 in the code).  A ticker may fire whenever *)
(* its routine looks at it.                                                *)
(*                                                                         *)
(* Deviations switches on mistakes, to see that the properties are not     *)
(* vacuous: each makes TLC find a counterexample.                          *)
(*   "blocking"     channel sends do not give up at shutdown               *)
(*   "readerquits"  the reader ends at the first read error                *)
(*   "senderquits"  the sender ends at the first write error               *)
(*   "keepsocket"   Stop does not close the socket                         *)
(*   "nowait"       Stop does not wait for the routines                    *)
(*   "awaitsusers"  Stop waits for callbacks, too                          *)
(*   "inline"       callbacks run in the handler                           *)
(*   "droppoll"     a full queue of polls loses polls                      *)
(*   "senderlocks"  the sender takes the registry lock                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Ctrl, Cap, Rx, Errors, Stalls, Universes, Writes, Ticks, MayStop, Deviations

Has(d) == d \in Deviations

VARIABLES inbox,    \* datagrams in the socket
          recvq,    \* channel: datagrams
          pollq,    \* channel: polls (a number)
          replyq,   \* channel: announcements (a number)
          sendq,    \* channel: what to send
          pc,       \* process -> where it stands
          held,     \* what reader / sender have in their hands
          left,     \* addresses the lights still have to send in this pass
          spawned,  \* goroutines waiting to hand over a "poll" or a "reply"
          running,  \* callbacks of the user that run
          lock,     \* who holds the registry lock
          down,     \* the shutdown flag
          closed,   \* the shutdown channel of the node is closed
          cclosed,  \* that of the controller
          conn,     \* the socket is open
          stalled,  \* writes do not get through
          budget,   \* what the environment may still do
          seen,     \* datagrams accepted from the socket, by kind
          done      \* polls answered, polls whose reply was lost, callbacks run, announcements processed
vars == <<inbox, recvq, pollq, replyq, sendq, pc, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

Kinds == {"poll", "app", "junk", "own"} \cup (IF Ctrl THEN {"ann"} ELSE {})
NodeLoops == {"reader", "handler", "replier", "sender"}
CtrlLoops == IF Ctrl THEN {"engine", "lights"} ELSE {}

Init ==
  /\ inbox = << >> /\ recvq = << >> /\ pollq = 0 /\ replyq = 0 /\ sendq = << >>
  /\ pc = [ reader |-> "read", handler |-> "select", replier |-> "select", sender |-> "select", stop |-> "idle",
            engine |-> IF Ctrl THEN "send" ELSE "end", lights |-> IF Ctrl THEN "select" ELSE "end", user |-> "idle" ]
  /\ held = [reader |-> "", sender |-> ""] /\ left = 0 /\ spawned = [poll |-> 0, ann |-> 0] /\ running = 0
  /\ lock = "" /\ down = FALSE /\ closed = FALSE /\ cclosed = FALSE /\ conn = TRUE /\ stalled = FALSE
  /\ budget = [rx |-> Rx, errs |-> Errors, stalls |-> Stalls, writes |-> Writes, ticks |-> Ticks]
  /\ seen = [ k \in {"poll", "app", "ann"} |-> 0 ] /\ done = [answered |-> 0, lost |-> 0, called |-> 0, known |-> 0]

Goes(p, from, to) == pc[p] = from /\ pc' = [pc EXCEPT ![p] = to]
\* what is sent matters only where it is counted
Msg(k) == IF Ctrl THEN "msg" ELSE k
GiveUp == closed /\ ~Has("blocking")

\* ---- environment -----------------------------------------------------------
Deliver(k) == /\ conn /\ budget.rx > 0
              /\ budget' = [budget EXCEPT !.rx = @ - 1] /\ inbox' = Append(inbox, k)
              /\ UNCHANGED <<recvq, pollq, replyq, sendq, pc, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, seen, done>>
Stall == /\ ~stalled /\ budget.stalls > 0
         /\ stalled' = TRUE /\ budget' = [budget EXCEPT !.stalls = @ - 1]
         /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, pc, held, left, spawned, running, lock, down, closed, cclosed, conn, seen, done>>
Resume == /\ stalled /\ stalled' = FALSE
          /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, pc, held, left, spawned, running, lock, down, closed, cclosed, conn, budget, seen, done>>
CallbackEnds == /\ running > 0 /\ running' = running - 1
                /\ (pc["handler"] = "inline" => Goes("handler", "inline", "select")) /\ (pc["handler"] # "inline" => UNCHANGED pc)
                /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

\* ---- the reader ------------------------------------------------------------
Read == /\ Goes("reader", "read", "check") /\ conn /\ inbox # << >>
        /\ held' = [held EXCEPT !.reader = Head(inbox)] /\ inbox' = Tail(inbox)
        /\ UNCHANGED <<recvq, pollq, replyq, sendq, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
ReadFails == /\ Goes("reader", "read", "check") /\ conn /\ budget.errs > 0
             /\ held' = [held EXCEPT !.reader = "error"] /\ budget' = [budget EXCEPT !.errs = @ - 1]
             /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, left, spawned, running, lock, down, closed, cclosed, conn, stalled, seen, done>>
ReadClosed == /\ Goes("reader", "read", "check") /\ ~conn
              /\ held' = [held EXCEPT !.reader = "closed"]
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
ReadChecked ==
  /\ pc["reader"] = "check"
  /\ LET h == held.reader
         to == IF down \/ h = "closed" \/ (h = "error" /\ Has("readerquits")) THEN "end"
               ELSE IF h \in {"error", "own"} THEN "read" ELSE "put"
     IN /\ pc' = [pc EXCEPT !["reader"] = to]
        /\ seen' = (IF to = "put" /\ h \in DOMAIN seen THEN [seen EXCEPT ![h] = @ + 1] ELSE seen)
  /\ held' = (IF pc'["reader"] = "put" THEN held ELSE [held EXCEPT !.reader = ""]) /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, done>>
ReadPut == /\ Goes("reader", "put", "read") /\ Len(recvq) < Cap /\ recvq' = Append(recvq, held.reader)
           /\ held' = [held EXCEPT !.reader = ""] /\ UNCHANGED <<inbox, pollq, replyq, sendq, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
ReadGivesUp == /\ Goes("reader", "put", "end") /\ GiveUp
               /\ held' = [held EXCEPT !.reader = ""] /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

\* ---- the handler -----------------------------------------------------------
Handle ==
  /\ pc["handler"] = "select" /\ recvq # << >> /\ recvq' = Tail(recvq)
  /\ LET k == Head(recvq) IN
     /\ spawned' = (IF k \in DOMAIN spawned THEN [spawned EXCEPT ![k] = @ + 1] ELSE spawned)
     /\ running' = (IF k = "app" THEN running + 1 ELSE running)
     /\ done' = (IF k = "app" THEN [done EXCEPT !.called = @ + 1] ELSE done)
     /\ pc' = (IF k = "app" /\ Has("inline") THEN [pc EXCEPT !["handler"] = "inline"] ELSE pc)
  /\ UNCHANGED <<inbox, pollq, replyq, sendq, held, left, lock, down, closed, cclosed, conn, stalled, budget, seen>>
HandlerEnds == /\ Goes("handler", "select", "end") /\ closed
               /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

\* ---- goroutines handing over a packet ---------------------------------------
PollOver == /\ spawned.poll > 0 /\ pollq < Cap
            /\ spawned' = [spawned EXCEPT !.poll = @ - 1] /\ pollq' = pollq + 1
            /\ UNCHANGED <<inbox, recvq, replyq, sendq, pc, held, left, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
PollDropped == /\ Has("droppoll") /\ spawned.poll > 0 /\ pollq = Cap
               /\ spawned' = [spawned EXCEPT !.poll = @ - 1]
               /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, pc, held, left, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
AnnOver == /\ spawned.ann > 0 /\ replyq < Cap
           /\ spawned' = [spawned EXCEPT !.ann = @ - 1] /\ replyq' = replyq + 1
           /\ UNCHANGED <<inbox, recvq, pollq, sendq, pc, held, left, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
OverGivesUp(k) == /\ spawned[k] > 0 /\ GiveUp
                  /\ spawned' = [spawned EXCEPT ![k] = @ - 1]
                  /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, pc, held, left, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

\* ---- the replier -------------------------------------------------------------
ReplyTake == /\ Goes("replier", "select", "put") /\ pollq > 0 /\ pollq' = pollq - 1
             /\ UNCHANGED <<inbox, recvq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
ReplyPut == /\ Goes("replier", "put", "select") /\ Len(sendq) < Cap /\ sendq' = Append(sendq, Msg("reply"))
            /\ UNCHANGED <<inbox, recvq, pollq, replyq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
ReplyGivesUp == /\ Goes("replier", "put", "select") /\ GiveUp
                /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
ReplierEnds == /\ Goes("replier", "select", "end") /\ closed
               /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

\* ---- the sender --------------------------------------------------------------
SendTake == /\ Goes("sender", "select", IF Has("senderlocks") THEN "lock" ELSE "check") /\ sendq # << >>
            /\ held' = [held EXCEPT !.sender = Head(sendq)] /\ sendq' = Tail(sendq)
            /\ UNCHANGED <<inbox, recvq, pollq, replyq, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
SendLocks == /\ Goes("sender", "lock", "check") /\ lock = ""      \* looks something up and unlocks again
             /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
SendChecked == /\ Goes("sender", "check", IF down THEN "end" ELSE "write")
               /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
SendOK == /\ Goes("sender", "write", "select") /\ conn /\ ~stalled
          /\ done' = (IF held.sender = "reply" /\ ~Ctrl THEN [done EXCEPT !.answered = @ + 1] ELSE done)
          /\ held' = [held EXCEPT !.sender = ""] /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen>>
SendFails == /\ Goes("sender", "write", IF Has("senderquits") THEN "end" ELSE "select")
             /\ \/ ~conn /\ UNCHANGED budget
                \/ conn /\ ~stalled /\ budget.errs > 0 /\ budget' = [budget EXCEPT !.errs = @ - 1]
             /\ done' = (IF held.sender = "reply" /\ ~Ctrl THEN [done EXCEPT !.lost = @ + 1] ELSE done)
             /\ held' = [held EXCEPT !.sender = ""] /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, left, spawned, running, lock, down, closed, cclosed, conn, stalled, seen>>
SenderEnds == /\ Goes("sender", "select", "end") /\ closed
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

Spend == budget.ticks > 0 /\ budget' = [budget EXCEPT !.ticks = @ - 1]

\* ---- the engine of the controller ---------------------------------------------
EnginePoll == /\ pc["engine"] = "send"
              /\ \/ Len(sendq) < Cap /\ sendq' = Append(sendq, Msg("poll"))
                 \/ GiveUp /\ UNCHANGED sendq
              /\ pc' = [pc EXCEPT !["engine"] = "self"]
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
EngineSelf == /\ pc["engine"] = "self"      \* and announces itself
              /\ \/ pollq < Cap /\ pollq' = pollq + 1
                 \/ GiveUp /\ UNCHANGED pollq
              /\ pc' = [pc EXCEPT !["engine"] = "select"]
              /\ UNCHANGED <<inbox, recvq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
EngineTick == /\ Goes("engine", "select", "send")
              /\ Spend
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, seen, done>>
EngineGc == /\ Goes("engine", "select", "gc")
            /\ Spend
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, seen, done>>
EngineTake == /\ Goes("engine", "select", "ann") /\ replyq > 0 /\ replyq' = replyq - 1
              /\ UNCHANGED <<inbox, recvq, pollq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
EngineLocked == /\ pc["engine"] \in {"gc", "ann"} /\ lock = ""        \* lock, work, unlock
                /\ pc' = [pc EXCEPT !["engine"] = "select"]
                /\ done' = (IF pc["engine"] = "ann" THEN [done EXCEPT !.known = @ + 1] ELSE done)
                /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen>>
EngineEnds == /\ Goes("engine", "select", "end") /\ cclosed
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

\* ---- the lights ----------------------------------------------------------------
LightsTick == /\ Goes("lights", "select", "lock")
              /\ Spend
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, seen, done>>
LightsLock == /\ Goes("lights", "lock", "put") /\ lock = "" /\ lock' = "lights" /\ left' = Universes
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, spawned, running, down, closed, cclosed, conn, stalled, budget, seen, done>>
LightsPut == /\ pc["lights"] = "put" /\ left > 0 /\ left' = left - 1
             /\ \/ Len(sendq) < Cap /\ sendq' = Append(sendq, Msg("dmx"))
                \/ GiveUp /\ UNCHANGED sendq
             /\ UNCHANGED <<inbox, recvq, pollq, replyq, pc, held, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>
LightsUnlock == /\ Goes("lights", "put", "select") /\ left = 0 /\ lock' = ""
                /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, down, closed, cclosed, conn, stalled, budget, seen, done>>
LightsEnd == /\ Goes("lights", "select", "end") /\ cclosed
             /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

\* ---- a user who writes DMX ---------------------------------------------------
UserCalls == /\ Ctrl /\ Goes("user", "idle", "lock") /\ budget.writes > 0 /\ budget' = [budget EXCEPT !.writes = @ - 1]
             /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, seen, done>>
UserReturns == /\ Goes("user", "lock", "idle") /\ lock = ""
               /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

\* ---- Stop ----------------------------------------------------------------------
StopCalled == /\ MayStop /\ Goes("stop", "idle", "close") /\ down' = TRUE
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, closed, cclosed, conn, stalled, budget, seen, done>>
StopCloses == /\ Goes("stop", "close", "socket") /\ closed' = TRUE
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, cclosed, conn, stalled, budget, seen, done>>
StopSocket == /\ Goes("stop", "socket", "wait") /\ conn' = Has("keepsocket")
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, stalled, budget, seen, done>>
StopWaited == /\ Goes("stop", "wait", "wait2") /\ cclosed' = TRUE
              /\ Has("nowait") \/ ((\A p \in NodeLoops : pc[p] = "end") /\ spawned = [poll |-> 0, ann |-> 0])
              /\ Has("awaitsusers") => running = 0
              /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, conn, stalled, budget, seen, done>>
StopReturns == /\ Goes("stop", "wait2", "returned")
               /\ Has("nowait") \/ \A p \in CtrlLoops : pc[p] = "end"
               /\ UNCHANGED <<inbox, recvq, pollq, replyq, sendq, held, left, spawned, running, lock, down, closed, cclosed, conn, stalled, budget, seen, done>>

Reader == Read \/ ReadClosed \/ ReadChecked \/ ReadPut \/ ReadGivesUp
Handler == Handle \/ HandlerEnds
Over == PollOver \/ PollDropped \/ AnnOver \/ OverGivesUp("poll") \/ OverGivesUp("ann")
Replier == ReplyTake \/ ReplyPut \/ ReplyGivesUp \/ ReplierEnds
Sender == SendTake \/ SendLocks \/ SendChecked \/ SendOK \/ SendFails \/ SenderEnds
Eng == EnginePoll \/ EngineSelf \/ EngineTick \/ EngineGc \/ EngineTake \/ EngineLocked \/ EngineEnds
Lights == LightsTick \/ LightsLock \/ LightsPut \/ LightsUnlock \/ LightsEnd
Stopping == StopCloses \/ StopSocket \/ StopWaited \/ StopReturns
Env == (\E k \in Kinds : Deliver(k)) \/ Stall \/ Resume \/ CallbackEnds
       \/ ReadFails \/ UserCalls \/ StopCalled
Next == Env \/ Reader \/ Handler \/ Over \/ Replier \/ Sender \/ Eng \/ Lights \/ UserReturns \/ Stopping
Spec == Init /\ [][Next]_vars

\* Fairness: the library goes on as long as it can (with finitely many datagrams, errors and ticks it
\* takes finitely many steps), and a stall of the network ends some day.  No callback has to end.
Lib == Reader \/ Handler \/ Over \/ Replier \/ Sender \/ Eng \/ Lights \/ UserReturns \/ Stopping
FairSpec == Spec /\ WF_vars(Lib) /\ WF_vars(Resume)
\* the network may stall for ever
StallSpec == Spec /\ WF_vars(Lib)

\* ---- properties -------------------------------------------------------------------
InHand(p, k) == IF pc[p] \in {"check", "put", "write", "lock"} /\ held[p] = k THEN 1 ELSE 0
Count(s, k) == Cardinality({ i \in DOMAIN s : s[i] = k })
\* C11: nothing but Stop ends a routine
Alive == ~down => \A p \in NodeLoops \cup CtrlLoops : pc[p] # "end"
\* C12: when Stop has returned nothing of the library runs and nothing is left open
NothingLeft == pc["stop"] = "returned" =>
  (\A p \in NodeLoops \cup CtrlLoops : pc[p] = "end") /\ spawned = [poll |-> 0, ann |-> 0] /\ ~conn /\ lock = ""
Silent == [][pc["stop"] = "returned" => done' = done /\ \A p \in NodeLoops \cup CtrlLoops : pc'[p] = pc[p]]_vars
\* C10: every accepted packet is in the pipeline or its callback has been called, exactly once
Delivery == ~down => seen["app"] = done.called + Count(recvq, "app") + (IF pc["reader"] = "put" THEN InHand("reader", "app") ELSE 0)
\* C05: the same for announcements
Knowledge == ~down => seen["ann"] = done.known + Count(recvq, "ann") + spawned.ann + replyq
                       + (IF pc["reader"] = "put" THEN InHand("reader", "ann") ELSE 0) + (IF pc["engine"] = "ann" THEN 1 ELSE 0)
\* C08 (node): every accepted poll is in the pipeline or has been answered, exactly once
OneReply == ~Ctrl /\ ~down => seen["poll"] = done.answered + done.lost + Count(recvq, "poll") + spawned.poll + pollq
              + (IF pc["reader"] = "put" THEN InHand("reader", "poll") ELSE 0) + (IF pc["replier"] = "put" THEN 1 ELSE 0)
              + Count(sendq, "reply") + (IF pc["sender"] \in {"lock", "check", "write"} THEN InHand("sender", "reply") ELSE 0)
NeverMore == ~Ctrl => done.answered + done.lost <= seen["poll"] /\ done.called <= seen["app"]
Bounded == Len(recvq) <= Cap /\ pollq <= Cap /\ replyq <= Cap /\ Len(sendq) <= Cap

\* C12: Stop returns
StopEnds == (pc["stop"] # "idle") ~> (pc["stop"] = "returned")
\* C18: calls return
CallEnds == (pc["user"] = "lock") ~> (pc["user"] = "idle")
\* C08, C10, C05, C11: everything accepted gets through if nobody calls Stop
Answered == (~Ctrl /\ seen["poll"] > done.answered + done.lost) ~> (down \/ seen["poll"] = done.answered + done.lost)
Called == (seen["app"] > done.called) ~> (down \/ seen["app"] = done.called)
Noticed == (seen["ann"] > done.known) ~> (down \/ seen["ann"] = done.known)
\* C02, C05, C07: a tick leads to its work being done, whatever the network does in between
LightsGoOn == (pc["lights"] \in {"lock", "put"}) ~> (down \/ pc["lights"] = "select")
EngineGoesOn == (pc["engine"] \in {"send", "self", "gc", "ann"}) ~> (down \/ pc["engine"] = "select")
\* Nothing is left to do when the library can do nothing: the same as an invariant
Quiet == (~stalled /\ ~ENABLED Lib) =>
  IF pc["stop"] = "idle"
  THEN /\ inbox = << >> /\ recvq = << >> /\ pollq = 0 /\ replyq = 0 /\ sendq = << >> /\ spawned = [poll |-> 0, ann |-> 0]
       /\ pc["reader"] = "read" /\ lock = "" /\ pc["user"] = "idle"
       /\ \A p \in {"handler", "replier", "sender"} \cup CtrlLoops : pc[p] = "select"
  ELSE pc["stop"] = "returned" /\ pc["user"] = "idle"
QuietStop == ~ENABLED Lib => pc["stop"] \in {"idle", "returned"}
=============================================================================
