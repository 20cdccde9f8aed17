-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Buffering text that arrives in pieces.                                  *)
(*                                                                         *)
(* A producer writes pieces of text, or fails.  The store keeps them in a  *)
(* fixed scratch area of Scratch bytes, moves to the heap when a piece     *)
(* does not fit, and at the end keeps short text in place (Small bytes) if *)
(* that is enabled (Small > 0).  What can be read back must be exactly     *)
(* what was written, whatever the pieces and wherever it is kept: the      *)
(* store refines the abstract list of pieces.                              *)
(*                                                                         *)
(* State:                                                                  *)
(*   wrote   lengths of the pieces so far (abstract)                       *)
(*   inl     pieces in the scratch area                                    *)
(*   heap    pieces on the heap                                            *)
(*   n       number of bytes                                               *)
(*   at      "open", "small", "boxed", "failed"                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Scratch, Small, MaxPieces, MaxLen, Sizes

VARIABLES wrote, inl, heap, n, at
vars == <<wrote, inl, heap, n, at>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

Init == wrote = <<>> /\ inl = <<>> /\ heap = <<>> /\ n = 0 /\ at = "open"

Write(k) ==
  /\ at = "open" /\ Len(wrote) < MaxPieces /\ n + k <= MaxLen
  /\ wrote' = Append(wrote, k)
  /\ n' = n + k
  /\ IF n + k > Scratch
     THEN /\ heap' = (IF heap = <<>> THEN inl ELSE heap) \o <<k>>
          /\ inl' = inl
     ELSE /\ inl' = Append(inl, k) /\ heap' = heap
  /\ UNCHANGED at

Finish == /\ at = "open"
          /\ at' = IF heap = <<>> /\ Small > 0 /\ n <= Small THEN "small" ELSE "boxed"
          /\ UNCHANGED <<wrote, inl, heap, n>>
Fail   == at = "open" /\ at' = "failed" /\ UNCHANGED <<wrote, inl, heap, n>>

Next == (\E k \in Sizes : Write(k)) \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars

(* What the store holds, as pieces. *)
Kept == IF heap /= <<>> THEN heap ELSE inl

Exact    == at /= "failed" => Kept = wrote /\ Sum(Kept) = n
InBounds == Sum(inl) <= Scratch
Fits     == at = "small" => n <= Small

(* Only the whole text can be told from outside, so nothing may depend on  *)
(* how it was split; the expectation of a replay is the text itself.       *)
CONSTANT Emit
PrintState == Emit /\ at \in {"small", "boxed", "failed"} => PrintT("T" \o at \o " " \o ToString(wrote))
=============================================================================
