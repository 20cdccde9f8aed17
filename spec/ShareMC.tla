------------------------------ MODULE ShareMC ------------------------------
(***************************************************************************)
(* Printing of the state graph of Share for replay: one line per state,    *)
(*   H key | step | step ...      step = action,slot,reads,cheap,key       *)
(*   key = mode ver src drops / handle ...                                 *)
(***************************************************************************)
EXTENDS Share

CONSTANT Emit

Hand(x) == IF x.f = "-" THEN "-"
           ELSE (IF x.f = "bag" THEN "b" ELSE "o") \o ToString(x.t) \o
                (IF x.of = "src" THEN "s" ELSE "n" \o ToString(x.id) \o ":" \o ToString(x.v) \o (IF x.sh THEN "A" ELSE ""))
RECURSIVE Hands(_, _)
Hands(s, h) == IF h > N THEN "" ELSE " " \o Hand(s.hold[h]) \o Hands(s, h + 1)
Key(s) == s.mode \o " " \o ToString(s.ver) \o " " \o s.src \o " " \o ToString(s.drops) \o Hands(s, 1)

Line(x) == " | " \o x.a \o "," \o ToString(x.h) \o "," \o
           (IF x.h = 0 THEN "0,0" ELSE ToString(Reads(st, x.a, x.h)) \o "," \o (IF Cheap(st, x.a, x.h) THEN "1" ELSE "0"))
           \o "," \o Key(x.to)
RECURSIVE Lines(_)
Lines(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : TRUE IN Line(x) \o Lines(S \ {x})

PrintState == Emit => PrintT("H" \o Key(st) \o Lines(Steps(st)))
=============================================================================
