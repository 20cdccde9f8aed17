------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* Structured values: what a captured type presents to serde or sval.      *)
(* A term is a record whose field k names the constructor.                 *)
(*   int(ty,r) f32 f64 bool char str(l) bytes null unit          leaves    *)
(*   some(x) newtype(x) nvar(x) ustruct uvar                               *)
(*   seq(xs) tuple(xs) tstruct(xs) tvar(xs) struct(xs) svar(xs) map(kvs)   *)
(*   fail             the value's own implementation fails at this point   *)
(*   late(x)          it fails right after presenting x                    *)
(*   bag(v,x)         a bag nested in the value, holding x captured as v   *)
(***************************************************************************)
EXTENDS Lattice

Leaf(k)     == [k |-> k]
Num(ty, r)  == [k |-> "int", ty |-> ty, r |-> r]
LeafC(k, c) == [k |-> k, c |-> c]
TextC(c)    == [k |-> "str", l |-> 0, c |-> c]
Text(l)     == [k |-> "str", l |-> l]
Node1(k, x) == [k |-> k, x |-> x]
NodeN(k, s) == [k |-> k, xs |-> s]
MapN(s)     == [k |-> "map", kvs |-> s]
InBagAs(v, x) == [k |-> "bag", v |-> v, x |-> x]
(* Text that an sval value streams in pieces: one temporary piece, two     *)
(* borrowed ones, one of each, or none at all.                             *)
Pieces      == {"temp", "two", "mix", "none"}
TextP(l, p) == [k |-> "str", l |-> l, p |-> p]

IsLeaf(t)   == t.k \in {"int", "f32", "f64", "bool", "char", "str", "bytes", "null", "unit"}
IsWrap(t)   == t.k \in {"some", "newtype", "nvar"}
IsList(t)   == t.k \in {"seq", "tuple", "tstruct", "tvar", "struct", "svar"}

RECURSIVE HasFail(_)
HasFail(t) ==
  CASE t.k \in {"fail", "late"} -> TRUE
    [] IsWrap(t) -> HasFail(t.x)
    [] t.k = "bag" -> t.v \in {"sval", "serde"} /\ HasFail(t.x)
    [] IsList(t) -> \E i \in DOMAIN t.xs : HasFail(t.xs[i])
    [] t.k = "map" -> \E i \in DOMAIN t.kvs : HasFail(t.kvs[i][1]) \/ HasFail(t.kvs[i][2])
    [] OTHER -> FALSE

(* Contains a bag that holds something streamed with sval. *)
RECURSIVE HasSvalBag(_)
HasSvalBag(t) ==
  CASE t.k = "bag" -> t.v = "sval" \/ HasSvalBag(t.x)
    [] IsWrap(t) \/ t.k = "late" -> HasSvalBag(t.x)
    [] IsList(t) -> \E i \in DOMAIN t.xs : HasSvalBag(t.xs[i])
    [] t.k = "map" -> \E i \in DOMAIN t.kvs : HasSvalBag(t.kvs[i][1]) \/ HasSvalBag(t.kvs[i][2])
    [] OTHER -> FALSE

(* Fails only once it has been presented in full: the step from sval to    *)
(* serde does not report that (sval_serde drops it), so it is left open.   *)
RECURSIVE LateEnd(_)
LateEnd(t) == t.k = "late" \/ ((IsWrap(t) \/ t.k = "bag") /\ LateEnd(t.x))

(* Contains text made by formatting code, which serde_fmt shows without    *)
(* quotes until it has been buffered.                                      *)
RECURSIVE HasShown(_)
HasShown(t) ==
  CASE IsWrap(t) -> HasShown(t.x)
    [] t.k = "bag" -> t.v \in {"debug", "display"} \/ HasShown(t.x)
    [] IsList(t) -> \E i \in DOMAIN t.xs : HasShown(t.xs[i])
    [] t.k = "map" -> \E i \in DOMAIN t.kvs : HasShown(t.kvs[i][1]) \/ HasShown(t.kvs[i][2])
    [] OTHER -> FALSE

(***************************************************************************)
(* Output tokens.  The i-th data token of a token list carries the i-th    *)
(* data leaf of the term, in order, so tokens do not need to name leaves.  *)
(* Both frameworks are described with the same tokens.  sval has no        *)
(* characters: a character that passes through it is a one-character text, *)
(* which is what the argument sv says (some step on the way is sval).      *)
(***************************************************************************)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

(* usize and isize are presented as 64-bit integers by both frameworks. *)
NormTy(ty) == CASE ty = "usize" -> "u64" [] ty = "isize" -> "i64" [] OTHER -> ty

(* A bag that holds a plain primitive presents it at its storage width. *)
BagTok(t, sv) ==
  CASE t.k = "int" -> "i:" \o (IF Signed(t.ty) THEN (IF Wide(t.ty) THEN "i128" ELSE "i64")
                                              ELSE (IF Wide(t.ty) THEN "u128" ELSE "u64"))
    [] t.k \in {"f32", "f64"} -> "f:f64"
    [] t.k = "char" -> IF sv THEN "str" ELSE "char"
    [] t.k \in {"null", "unit"} -> "null"
    [] OTHER -> t.k

RECURSIVE Toks(_, _)
Toks(t, sv) ==
  CASE t.k = "fail" -> <<"FAIL">>
    [] t.k = "late" -> Toks(t.x, sv) \o <<"FAIL">>
    [] t.k = "int" -> <<"i:" \o NormTy(t.ty)>>
    [] t.k = "f32" -> <<"f:f32">>
    [] t.k = "f64" -> <<"f:f64">>
    [] t.k = "char" -> <<IF sv THEN "str" ELSE "char">>
    [] IsLeaf(t) -> <<t.k>>
    [] t.k \in {"ustruct", "uvar"} -> <<t.k>>
    [] IsWrap(t) -> <<t.k>> \o Toks(t.x, sv)
    [] IsList(t) -> <<t.k \o "[">>
                    \o Flatten([i \in DOMAIN t.xs |-> <<"el">> \o Toks(t.xs[i], sv)])
                    \o <<"]">>
    [] t.k = "map" -> <<"map[">>
                    \o Flatten([i \in DOMAIN t.kvs |-> <<"key">> \o Toks(t.kvs[i][1], sv)
                                                    \o <<"val">> \o Toks(t.kvs[i][2], sv)])
                    \o <<"]">>
    [] t.k = "bag" -> CASE t.v = "sval" -> Toks(t.x, TRUE)
                        [] t.v = "serde" -> Toks(t.x, sv)
                        [] t.v = "debug" -> <<"t:D">>
                        [] t.v = "display" -> <<"t:P">>
                        [] t.v = "prim" -> <<BagTok(t.x, sv)>>

(* Tokens up to (not including) the first failure point. *)
RECURSIVE UpToFail(_)
UpToFail(ts) == IF ts = <<>> \/ Head(ts) = "FAIL" THEN <<>> ELSE <<Head(ts)>> \o UpToFail(Tail(ts))

(***************************************************************************)
(* The primitive a structured value amounts to, if any: what a conversion  *)
(* or a visitor sees.  Result: a leaf term, or [k |-> "complex"], or       *)
(* [k |-> "label"] for an sval standalone tag (its reading as text is left *)
(* unspecified), or [k |-> "fail"], or [k |-> "late"] for a primitive that  *)
(* is presented in full before the value fails.                            *)
(* A bag nested in the value counts as what it holds; its text may or may  *)
(* not be available as borrowed (field p).                                 *)
(***************************************************************************)
RECURSIVE SvalPrim(_), SerdePrim(_)
Nested(l) == IF l.k = "str" THEN [k |-> "str", l |-> l.l, p |-> "nested"] ELSE l
Shown     == [k |-> "str", l |-> 0, p |-> "nested"]
LateOf(p) == IF p.k \in {"complex", "fail"} THEN p ELSE Leaf("late")
Plain(t)  == IF t.k = "unit" THEN Leaf("null") ELSE t
SvalPrim(t) ==
  CASE t.k \in {"int", "f32", "f64", "bool", "null", "str"} -> t
    [] t.k = "char" -> [k |-> "chartext"]
    [] t.k \in {"unit", "ustruct", "uvar"} -> Leaf("label")
    [] IsWrap(t) -> SvalPrim(t.x)
    [] t.k = "fail" -> t
    [] t.k = "late" -> LateOf(SvalPrim(t.x))
    [] t.k = "bag" -> (CASE t.v \in {"sval", "serde"} -> Nested(SvalPrim(t.x))
                        [] t.v \in {"debug", "display"} -> Shown
                        [] t.v = "prim" -> Nested(SvalPrim(Plain(t.x))))
    [] OTHER -> Leaf("complex")

(* What serde sees of a value that went through sval on its way. *)
RECURSIVE ViaSval(_)
ViaSval(t) ==
  CASE t.k = "char" -> [k |-> "chartext"]
    [] t.k = "some" -> ViaSval(t.x)
    [] t.k = "late" -> LateOf(ViaSval(t.x))
    [] t.k = "bag" -> (CASE t.v \in {"sval", "serde"} -> Nested(ViaSval(t.x))
                        [] t.v \in {"debug", "display"} -> Shown
                        [] t.v = "prim" -> Nested(ViaSval(Plain(t.x))))
    [] OTHER -> SerdePrim(t)
SerdePrim(t) ==
  CASE t.k \in {"int", "f32", "f64", "bool", "null", "str", "char"} -> t
    [] t.k = "unit" -> Leaf("null")
    [] t.k = "some" -> SerdePrim(t.x)
    [] t.k = "fail" -> t
    [] t.k = "late" -> LateOf(SerdePrim(t.x))
    [] t.k = "bag" -> (CASE t.v = "serde" -> Nested(SerdePrim(t.x))
                        [] t.v = "sval" -> Nested(ViaSval(t.x))
                        [] t.v \in {"debug", "display"} -> Shown
                        [] t.v = "prim" -> Nested(Plain(t.x)))
    [] OTHER -> Leaf("complex")

(***************************************************************************)
(* The elements of a structured value seen as a sequence.                  *)
(* kind: "no" (not a sequence), "yes", "open" (left unspecified: maps,     *)
(* records, byte strings and named tuples, where the frameworks differ).   *)
(***************************************************************************)
RECURSIVE SeqShape(_, _)
SeqShape(t, fw) ==
  CASE t.k \in {"seq", "tuple"} -> [kind |-> "yes", xs |-> t.xs]
    [] t.k = "some" -> SeqShape(t.x, fw)
    [] t.k \in {"newtype", "nvar"} -> IF fw = "sval" THEN SeqShape(t.x, fw)
                                      ELSE [kind |-> "no", xs |-> <<>>]
    [] t.k = "bag" /\ t.v \in {"sval", "serde"} ->
         LET in == SeqShape(t.x, fw)     \* elements pass through both frameworks
         IN [kind |-> in.kind, xs |-> [i \in DOMAIN in.xs |-> InBagAs(t.v, in.xs[i])]]
    [] t.k \in {"tstruct", "tvar", "struct", "svar", "map", "bytes"} -> [kind |-> "open", xs |-> <<>>]
    [] OTHER -> [kind |-> "no", xs |-> <<>>]
=============================================================================
