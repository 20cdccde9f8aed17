----------------------------- MODULE ShareTrace -----------------------------
(***************************************************************************)
(* Validation of recorded concurrent histories against Share.              *)
(*                                                                         *)
(* A history is a list of events in the order of one global clock:         *)
(*   reset   a new source; everything before must be over                  *)
(*   b, e    a thread begins / ends an operation on a named handle; the    *)
(*           end of an observation carries the version that was seen       *)
(*   gone    the source's destructor ran, in that thread                   *)
(* Each operation takes effect at one moment between its begin and its end *)
(* (the Lin action), as a step of Share.  The destructor may only run in   *)
(* the operation that ended the source's life.                             *)
(***************************************************************************)
EXTENDS Share, Json, IOUtils

History == ndJsonDeserialize(IOEnv.HISTORY)

VARIABLES l,      \* next event
          pend,   \* operation each thread is in
          name,   \* slots of named handles, <<name, slot>>
          gone    \* the destructor ran

vars == <<st, l, pend, name, gone>>
Idle == [op |-> "-", h |-> 0, n |-> 0, done |-> FALSE, v |-> 0, last |-> FALSE]
Fresh(m) == [mode |-> m, ver |-> 0, src |-> "own", drops |-> 0, hold |-> [h \in Slots |-> Free]]

TInit == /\ st = Fresh("share") /\ st.src = "own"
         /\ l = 1 /\ pend = [t \in 1..3 |-> Idle] /\ name = {} /\ gone = 0
         /\ TLCSet(1, 0)

Ev == History[l]
At(e) == l <= Len(History) /\ Ev.e = e
SlotOf(n) == IF n = 0 THEN 0 ELSE (CHOOSE p \in name : p[1] = n)[2]

Reset == /\ At("reset")
         /\ l > 1 => \A t \in 1..3 : pend[t].op = "-"
         /\ l > 1 => Used(st) = {} /\ st.src = "gone" /\ gone = 1
         /\ st' = Fresh(Ev.mode) /\ name' = {} /\ gone' = 0 /\ UNCHANGED pend
Begin == /\ At("b") /\ pend[Ev.t].op = "-"
         /\ pend' = [pend EXCEPT ![Ev.t] = [Idle EXCEPT !.op = Ev.op, !.h = Ev.h, !.n = Ev.n]]
         /\ UNCHANGED <<st, name, gone>>
End ==   /\ At("e") /\ pend[Ev.t].done
         /\ pend[Ev.t].op = "observe" => pend[Ev.t].v = Ev.v
         \* whoever ends the source's life has run its destructor when it returns
         /\ pend[Ev.t].last => gone = 1
         /\ pend' = [pend EXCEPT ![Ev.t] = Idle]
         /\ UNCHANGED <<st, name, gone>>
Gone ==  /\ At("gone") /\ gone = 0 /\ pend[Ev.t].last /\ pend[Ev.t].done
         /\ gone' = 1 /\ UNCHANGED <<st, pend, name>>
Consume == (Reset \/ Begin \/ End \/ Gone) /\ l' = l + 1

Lin(t) ==
  /\ pend[t].op /= "-" /\ ~pend[t].done
  /\ l' = l /\ gone' = gone
  /\ LET p == pend[t] IN
     IF p.op = "observe" THEN
        /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].v = Shows(st, st.hold[SlotOf(p.h)])]
        /\ UNCHANGED <<st, name>>
     ELSE
        \E x \in Steps(st) :
          /\ x.a = p.op /\ x.h = SlotOf(p.h)
          /\ st' = x.to
          /\ name' = IF p.n /= 0 THEN name \cup {<<p.n, FreeSlot(st)>>}
                     ELSE IF p.op = "drop" THEN {q \in name : q[1] /= p.h} ELSE name
          /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].last = x.to.drops > st.drops]

TNext == Consume \/ \E t \in 1..3 : Lin(t)
TSpec == TInit /\ [][TNext]_vars

Far == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT("FAR " \o ToString(TLCGet(1)) \o " OF " \o ToString(Len(History) + 1)) /\ TLCGet(1) = Len(History) + 1
=============================================================================
