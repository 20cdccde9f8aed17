------------------------------- MODULE Share -------------------------------
(***************************************************************************)
(* Lifetime of what a bag holds: a source whose content changes over time, *)
(* handles that borrow it, share it or hold a snapshot of it, in two       *)
(* threads.                                                                *)
(*                                                                         *)
(* Mode "borrow": the source stays with the caller, a bag refers to it and *)
(* buffering takes a snapshot.  Mode "share": capturing moves the source   *)
(* into a shared allocation, and every form refers to that one object.     *)
(*                                                                         *)
(* State:                                                                  *)
(*   mode  "borrow" | "share"                                              *)
(*   ver   current content of the source                                   *)
(*   src   "own" (with the caller), "in" (moved into bags), "gone"         *)
(*   drops how often the source was dropped                                *)
(*   hold  handle in each slot:                                            *)
(*     f   "-" free, "bag" borrowed form, "own" owned form                 *)
(*     of  "src" refers to the source, "snap" holds a snapshot             *)
(*     id  which snapshot object, v its content, sh whether it is shared   *)
(*     t   thread that has the handle                                      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS N,        \* number of slots
          MaxVer,   \* content versions 0..MaxVer
          Modes,
          TwoThreads

VARIABLE st

Slots   == 1..N
Threads == IF TwoThreads THEN {1, 2} ELSE {1}
Free    == [f |-> "-", of |-> "-", id |-> 0, v |-> 0, sh |-> FALSE, t |-> 0]
BagOfSrc == [f |-> "bag", of |-> "src", id |-> 0, v |-> 0, sh |-> FALSE, t |-> 1]

Init == st \in {[mode |-> m, ver |-> 0, src |-> "own", drops |-> 0, hold |-> [h \in Slots |-> Free]] : m \in Modes}

Used(s)    == {h \in Slots : s.hold[h].f /= "-"}
Room(s)    == Used(s) /= Slots
Least(S)   == CHOOSE x \in S : \A y \in S : x <= y
FreeSlot(s) == Least(Slots \ Used(s))
FreshId(s) == Least((1..(N + 1)) \ {s.hold[h].id : h \in Used(s)})
OfSrc(s)   == {h \in Used(s) : s.hold[h].of = "src"}

Snap(s, v, t) == [f |-> "own", of |-> "snap", id |-> FreshId(s), v |-> v, sh |-> FALSE, t |-> t]

(* The handle made by buffering handle x: a snapshot of a borrowed source, *)
(* the object itself if it is shared, a copy of a private snapshot.        *)
Buffered(s, x) ==
  IF x.of = "src" THEN IF s.mode = "borrow" THEN Snap(s, s.ver, x.t) ELSE [x EXCEPT !.f = "own"]
  ELSE IF x.sh THEN x ELSE Snap(s, x.v, x.t)
Shared(x) == IF x.of = "snap" THEN [x EXCEPT !.sh = TRUE] ELSE x
Cloned(s, x) == IF x.of = "snap" /\ ~x.sh THEN Snap(s, x.v, x.t) ELSE x

Put(s, h, x) == [s EXCEPT !.hold[h] = x]
Step(a, h, n) == [a |-> a, h |-> h, to |-> n]

Steps(s) ==
  LET new(a, h, x) == Step(a, h, Put(s, FreeSlot(s), x)) IN
  (IF s.ver < MaxVer /\ s.src /= "gone" THEN {Step("mutate", 0, [s EXCEPT !.ver = @ + 1])} ELSE {})
  \cup (IF s.src = "own" /\ Room(s) THEN
          {Step("capture", 0, [Put(s, FreeSlot(s), BagOfSrc) EXCEPT !.src = IF s.mode = "share" THEN "in" ELSE "own"])} ELSE {})
  \cup (IF s.src = "own" /\ OfSrc(s) = {} THEN {Step("drop_source", 0, [s EXCEPT !.src = "gone", !.drops = @ + 1])} ELSE {})
  \cup (IF ~Room(s) THEN {} ELSE UNION {{
            new("clone", h, Cloned(s, s.hold[h])),
            new("to_owned", h, Buffered(s, s.hold[h])),
            new("to_shared", h, Shared(Buffered(s, s.hold[h])))} : h \in Used(s)})
  \cup {Step("into_shared", h, Put(s, h, Shared(s.hold[h]))) : h \in {x \in Used(s) : s.hold[x].f = "own"}}
  \cup {Step("send", h, Put(s, h, [s.hold[h] EXCEPT !.t = 3 - @])) :
            h \in {x \in Used(s) : TwoThreads /\ s.hold[x].f = "own"}}
  \cup {Step("drop", h,
          LET n == Put(s, h, Free) IN
          IF n.src = "in" /\ OfSrc(n) = {} THEN [n EXCEPT !.src = "gone", !.drops = @ + 1] ELSE n) : h \in Used(s)}

Next == \E x \in Steps(st) : st' = x.to
Spec == Init /\ [][Next]_st

(***************************************************************************)
(* What a handle shows, and what the operations may cost.                  *)
(***************************************************************************)
Shows(s, x)  == IF x.of = "src" THEN s.ver ELSE x.v
(* calls into the source's own formatting made by one step *)
Reads(s, a, h) == IF a \in {"to_owned", "to_shared"} /\ s.mode = "borrow" /\ s.hold[h].of = "src" THEN 1 ELSE 0
(* the step must not copy the content *)
Cheap(s, a, h) == /\ a \in {"clone", "to_owned", "to_shared", "into_shared", "send"}
                  /\ LET x == s.hold[h] IN
                     IF x.of = "src" THEN s.mode = "share" \/ a = "clone" ELSE x.sh \/ a \in {"into_shared", "send"}

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
TypeOK == /\ st.ver \in 0..MaxVer /\ st.drops \in 0..1
          /\ \A h \in Used(st) : st.hold[h].t \in Threads /\ (st.hold[h].f = "bag" => st.hold[h].t = 1)

(* P15: alive while someone holds it, dropped exactly once after the last. *)
Alive == /\ (st.src = "gone") <=> (st.drops = 1)
         /\ st.src = "in" => OfSrc(st) /= {}
         /\ OfSrc(st) /= {} => st.drops = 0
(* ... and it is one object: in share mode nothing else is ever made. *)
OneObject == st.mode = "share" => Used(st) = OfSrc(st)
(* a shared snapshot is one object with one content; a private one has one holder *)
SnapObjects == \A g, h \in Used(st) :
    st.hold[g].of = "snap" /\ st.hold[h].of = "snap" /\ st.hold[g].id = st.hold[h].id =>
       g = h \/ (st.hold[g].sh /\ st.hold[h].sh /\ st.hold[g].v = st.hold[h].v)

(* P14: a snapshot never changes, and starts with the content of that moment *)
Stable == [][\A h \in Slots :
     LET x == st.hold[h]  y == st'.hold[h] IN
     /\ x.of = "snap" /\ y.of = "snap" => x.v = y.v
     /\ x.of /= "snap" /\ y.of = "snap" => y.v \in {st.ver} \cup {st.hold[g].v : g \in Used(st)}]_st
Live == [][\A h \in Slots : st.hold[h].of = "src" /\ st'.hold[h].of = "src" => Shows(st', st'.hold[h]) = st'.ver]_st
=============================================================================
