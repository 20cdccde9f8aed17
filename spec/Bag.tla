-------------------------------- MODULE Bag --------------------------------
(***************************************************************************)
(* The value bag as a state machine.                                       *)
(*                                                                         *)
(* State of one handle:                                                    *)
(*   src   what was captured: Rust type, optional wrapper, content term    *)
(*   m     ghost: the meaning given to the capture by the route taken      *)
(*   rep   the representation the handle holds now                         *)
(*                                                                         *)
(* Actions are the capture routes and the transforms of the public API.    *)
(* Obs(st) is the expected answer of every public operation.  The part of  *)
(* the specification in section "Representation" follows the dispatch of   *)
(* the implementation (which form is stored, what it forwards to); the     *)
(* part in section "Meaning" does not mention representations at all.      *)
(* The invariants at the end say that both agree.                          *)
(***************************************************************************)
EXTENDS Terms, TLC

CONSTANTS
  F,          \* enabled capabilities, subset of {"alloc","owned","error","sval","serde","seq","i128"}
  InlineLens, \* how many text length classes are stored inline once buffered (0: none)
  SrcSet,     \* the sources to capture
  Defer       \* TRUE: any bag may be handed out by a supplier of another bag

Has(x) == x \in F

(***************************************************************************)
(* Representation                                                          *)
(*   h  "bag" | "own"        borrowed handle / owned handle                *)
(*   v  what is stored                                                     *)
(*   f  how: plain (by value), cap (reference with type identity), sized,  *)
(*      anon (reference without), local (the same, given to a visitor),    *)
(*      arc, aref (reference to arc), inline / box (owned handle)          *)
(*   o  "src" live source, "buf" buffered copy                             *)
(*   d  TRUE when handed out through a deferred slot                       *)
(*   w  TRUE when a supplier hands out a whole bag                         *)
(***************************************************************************)
Rep(h, v, f, o) == [h |-> h, v |-> v, f |-> f, o |-> o, d |-> FALSE, w |-> FALSE]

PrimV == {"signed", "unsigned", "bigsigned", "bigunsigned", "float", "bool", "char", "str", "none"}
DynV  == {"debug", "display", "error", "sval", "serde", "seq"}

DirectV(t) ==
  CASE t.k = "int" -> IF Wide(t.ty) THEN (IF Signed(t.ty) THEN "bigsigned" ELSE "bigunsigned")
                      ELSE (IF Signed(t.ty) THEN "signed" ELSE "unsigned")
    [] t.k \in {"f32", "f64"} -> "float"
    [] t.k \in {"bool", "char", "str"} -> t.k
    [] t.k \in {"null", "unit"} -> "none"

DirectRep(t) == Rep("bag", DirectV(t), "plain", "src")

(* A slot filled on demand: transparent, except for downcasts, emptiness   *)
(* and borrowing.                                                          *)
Deferred(rep) == [rep EXCEPT !.d = TRUE]

(***************************************************************************)
(* Capture routes: set of [r |-> route, rep |-> representation,            *)
(*                         m |-> meaning] available for a source.          *)
(***************************************************************************)
Route(r, rep, m) == [r |-> r, rep |-> rep, m |-> m]

PrimTypes == IntTypes \cup {"f32", "f64", "bool", "char", "sstr", "string"}

(* The type table used when capturing by reference ... *)
TryCapture(ty) == ty \in PrimTypes /\ (ty = "string" => Has("alloc"))
(* ... and when taking ownership. *)
TryCaptureOwned(ty) == ty \in (PrimTypes \ {"sstr", "string"}) /\ (Wide(ty) => Has("i128"))

(* src.opt: "no" a T, "some"/"none" an Option<T>. *)
PrimM(t) == IF t.k \in {"null", "unit"} THEN [k |-> "empty"] ELSE [k |-> "prim", t |-> t]

(* The structured reading of a source (what serde/sval see when it is      *)
(* captured through them).                                                 *)
StructTerm(src) ==
  CASE src.opt = "none" -> Leaf("null")
    [] src.opt = "some" -> Node1("some", src.t)
    [] OTHER -> src.t

FmtM(k) == [k |-> k]
CanDisplay(src) == src.opt = "no" /\ src.ty \notin {"unit", "look"}
(* No std implementation of sval::Value for these. *)
CanSval(src) == Has("sval") /\ src.ty \notin {"usize", "isize", "cow"}
DynRoutes(src, pre) ==   \* anonymous routes, available for every source type
     {Route(r, Rep("bag", "debug", "anon", "src"), FmtM("dbg")) : r \in
        {"from_debug", "from_dyn_debug", "into_dyn_debug", "into_ref_dyn_debug", "into_opt_dyn_debug"}}
  \cup (IF CanDisplay(src) THEN
        {Route(r, Rep("bag", "display", "anon", "src"), FmtM("dsp")) : r \in
        {"from_display", "from_dyn_display", "into_dyn_display", "into_ref_dyn_display", "into_opt_dyn_display"}} ELSE {})
  \cup (IF CanSval(src) THEN
        {Route("from_sval2", Rep("bag", "sval", "sized", "src"), [k |-> "sval"])}
        \cup {Route(r, Rep("bag", "sval", "anon", "src"), [k |-> "sval"]) : r \in
            {"from_dyn_sval2", "into_dyn_sval2", "into_ref_dyn_sval2", "into_opt_dyn_sval2"}} ELSE {})
  \cup (IF Has("serde") THEN
        {Route("from_serde1", Rep("bag", "serde", "sized", "src"), [k |-> "serde"])} ELSE {})

FillDyn(src) ==
     {Route("fill_debug", Deferred(Rep("bag", "debug", "anon", "src")), FmtM("dbg"))}
  \cup (IF CanDisplay(src) THEN
        {Route("fill_display", Deferred(Rep("bag", "display", "anon", "src")), FmtM("dsp"))} ELSE {})
  \cup (IF CanSval(src) THEN {Route("fill_sval2", Deferred(Rep("bag", "sval", "anon", "src")), [k |-> "sval"])} ELSE {})
  \cup (IF Has("serde") THEN {Route("fill_serde1", Deferred(Rep("bag", "serde", "anon", "src")), [k |-> "serde"])} ELSE {})

(* Capturing with type identity: a primitive if the type table says so.    *)
CapRoutes(src) ==
  LET prim == TryCapture(src.ty)
      t    == IF src.opt = "none" THEN Leaf("null") ELSE src.t
      D    == DirectRep(t)
      pm   == PrimM(t)
      Cap(r, v, m) == IF prim THEN Route(r, D, pm) ELSE Route(r, Rep("bag", v, "cap", "src"), m)
  IN {Cap("capture_debug", "debug", FmtM("dbg"))}
     \cup (IF prim THEN {Route("try_capture", D, pm)} ELSE {})
     \cup (IF CanDisplay(src) THEN {Cap("capture_display", "display", FmtM("dsp"))} ELSE {})
     \cup (IF CanSval(src) THEN {Cap("capture_sval2", "sval", [k |-> "sval"])} ELSE {})
     \cup (IF Has("serde") THEN {Cap("capture_serde1", "serde", [k |-> "serde"])} ELSE {})

(* Captures that have to say no: the type is not a primitive. *)
Refused(src) ==
  IF src.ty \in {"empty", "badfill", "err", "slice"} THEN {} ELSE
  {r \in {"try_capture"} : ~TryCapture(src.ty)} \cup {r \in {"try_capture_owned"} : Has("owned") /\ ~TryCaptureOwned(src.ty)}

SharedRoutes(src) ==
  IF ~Has("owned") THEN {} ELSE
  LET prim == TryCaptureOwned(src.ty)
      t    == IF src.opt = "none" THEN Leaf("null") ELSE src.t
      D    == DirectRep(t)
      pm   == PrimM(t)
      Sh(r, v, m) == IF prim THEN Route(r, D, pm) ELSE Route(r, Rep("bag", v, "arc", "src"), m)
      base == {Sh("shared_debug", "debug", FmtM("dbg"))}
              \cup (IF prim THEN {Route("try_capture_owned", D, pm)} ELSE {})
              \cup (IF CanDisplay(src) THEN {Sh("shared_display", "display", FmtM("dsp"))} ELSE {})
              \cup (IF CanSval(src) THEN {Sh("shared_sval2", "sval", [k |-> "sval"])} ELSE {})
              \cup (IF Has("serde") THEN {Sh("shared_serde1", "serde", [k |-> "serde"])} ELSE {})
  IN base \cup {Route("fill_" \o x.r, Deferred(x.rep), x.m) : x \in {y \in base : y.r \notin {"try_capture_owned"}}}

DirectRoutes(src) ==
  LET t  == IF src.opt = "none" THEN Leaf("null") ELSE src.t
      D  == DirectRep(t)
      pm == PrimM(t)
      wide == Wide(src.ty)
      On(r) == Route(r, D, pm)
  IN IF src.opt = "no" THEN
       (IF src.ty \in (PrimTypes \ {"string"}) \cup {"unit"} /\ (wide => Has("i128"))
          THEN {On("into_val"), On("option_val")} ELSE {})
       \cup (IF src.ty \in PrimTypes \cup {"unit", "cow"} /\ (src.ty \in {"string", "cow"} => Has("alloc"))
          THEN {On("into_ref"), On("option_ref")} ELSE {})
       \cup (IF src.ty \in PrimTypes THEN {On("ctor")} ELSE {})
       \cup (IF wide /\ Has("i128") THEN {On("ctor_val")} ELSE {})
       \cup (IF src.ty = "string" THEN {On("into_str"), On("try_capture_str")} ELSE {})
       \cup (IF src.ty \in (PrimTypes \ {"string"}) \cup {"unit"} /\ (wide => Has("i128"))
          THEN {Route("fill_any", Deferred(D), pm)} ELSE {})
     ELSE
       (IF src.ty \in (PrimTypes \ {"string"}) /\ ~wide
          THEN {On("into_val"), Route("fill_any", Deferred(D), pm)} ELSE {})
       \cup (IF src.ty \in (PrimTypes \ {"string"}) /\ (wide => Has("i128"))
          THEN {On("option_val")} ELSE {})
       \cup (IF src.ty \in PrimTypes /\ (src.ty = "string" => Has("alloc"))
          THEN {On("option_ref")} ELSE {})

ErrRoutes(src) ==
  LET E(r, f) == Route(r, Rep("bag", "error", f, "src"), [k |-> "err"])
      Fl(r)   == Route(r, Deferred(Rep("bag", "error", "anon", "src")), [k |-> "err"])
  IN IF ~Has("error") THEN {} ELSE
     {E("capture_error", "cap")} \cup
     {E(r, "anon") : r \in {"from_dyn_error", "into_dyn_error", "into_ref_dyn_error", "into_opt_dyn_error"}} \cup
     {Fl("fill_error"), Fl("fill_dyn_error")} \cup
     (IF Has("owned") THEN {E("shared_error", "arc"),
        Route("fill_shared_error", Deferred(Rep("bag", "error", "arc", "src")), [k |-> "err"])} ELSE {}) \cup
     {Route("capture_debug", Rep("bag", "debug", "cap", "src"), FmtM("dbg")),
      Route("capture_display", Rep("bag", "display", "cap", "src"), FmtM("dsp"))}

SliceRoutes(src) ==
  LET S(r, f) == Route(r, Rep("bag", "seq", f, "src"), [k |-> "list"])
      arr == src.ety \notin {"string", "mixed"}
      vec == src.ety \notin {"sstr", "mixed"}
  IN IF ~Has("seq") \/ (src.ety = "string" /\ ~Has("alloc")) THEN {} ELSE
     {S("seq_slice", "anon")}
     \cup (IF arr THEN {S(r, "anon") : r \in {"into_array", "into_opt_array", "into_slice", "into_opt_slice"}} ELSE {})
     \cup (IF vec /\ Has("alloc") THEN {S(r, "anon") : r \in {"into_vec", "into_opt_vec"}} ELSE {})
     \cup {Route("fill_seq_slice", Deferred(Rep("bag", "seq", "anon", "src")), [k |-> "list"])}
     \cup (IF Has("owned") THEN {S("shared_seq_slice", "arc"),
           Route("fill_shared_seq_slice", Deferred(Rep("bag", "seq", "arc", "src")), [k |-> "list"])} ELSE {})
     \cup (IF arr THEN {Route(r, DirectRep(Leaf("null")), [k |-> "empty"]) : r \in {"none_array", "none_slice"}} ELSE {})
     \cup (IF vec /\ Has("alloc") THEN {Route("none_vec", DirectRep(Leaf("null")), [k |-> "empty"])} ELSE {})

EmptyRoutes == {Route(r, DirectRep(Leaf("null")), [k |-> "empty"]) : r \in {"empty", "option_none"}}
               \cup {Route("fill_any_empty", Deferred(DirectRep(Leaf("null"))), [k |-> "empty"])}
               \cup {Route(r, DirectRep(Leaf("null")), [k |-> "empty"]) : r \in
                       {"none_dyn_debug", "none_dyn_display"}
                       \cup (IF Has("error") THEN {"none_dyn_error"} ELSE {})
                       \cup (IF Has("sval") THEN {"none_dyn_sval2"} ELSE {})}

Routes(src) ==
  CASE src.ty \in PrimTypes \cup {"unit", "cow"} ->
         DirectRoutes(src) \cup CapRoutes(src) \cup DynRoutes(src, "") \cup SharedRoutes(src) \cup FillDyn(src)
    [] src.ty = "obj" -> CapRoutes(src) \cup DynRoutes(src, "") \cup SharedRoutes(src) \cup FillDyn(src)
    [] src.ty \in {"txt", "look"} -> {x \in CapRoutes(src) \cup DynRoutes(src, "") \cup SharedRoutes(src) \cup FillDyn(src) :
                            x.rep.v \in {"debug", "display"}}
    [] src.ty = "err" -> ErrRoutes(src)
    [] src.ty = "slice" -> SliceRoutes(src)
    [] src.ty = "empty" -> EmptyRoutes
    [] src.ty = "badfill" -> {Route(r, Rep("bag", r, "anon", "src"), [k |-> r]) : r \in
                                {"fill_fail", "fill_noop", "fill_then_fail"}}
                             \cup {Route(r, Rep("bag", "fill_fail", "anon", "src"), [k |-> "fill_fail"]) : r \in
                                    {"fill_fail_fmt"} \cup (IF Has("error") THEN {"fill_fail_boxed", "fill_fail_io"} ELSE {})}

(***************************************************************************)
(* Transforms of a representation.                                         *)
(***************************************************************************)
FmtLen(src) == IF src.ty = "txt" /\ "l" \in DOMAIN src.t THEN src.t.l ELSE 0
TextStore(l) == IF l < InlineLens THEN "inline" ELSE "box"

ByRefRep(rep) == IF rep.f = "arc" /\ ~rep.d THEN [rep EXCEPT !.f = "aref"] ELSE rep

Fails(src) == HasFail(src.t)
FmtFails(src) == src.ty = "txt" /\ src.t.k = "fail"            \* Debug and Display fail
MsgFails(src) == FmtFails(src) \/ (src.ty = "err" /\ src.t.k = "fail" /\ src.t.at = 0)   \* Display fails

BadFill == {"fill_fail", "fill_noop", "fill_then_fail"}

ToOwnedRep(rep, src) ==
  CASE rep.v \in {"signed", "bigsigned"} -> Rep("own", "bigsigned", "plain", "buf")
    [] rep.v \in {"unsigned", "bigunsigned"} -> Rep("own", "bigunsigned", "plain", "buf")
    [] rep.v = "str" -> Rep("own", "str", TextStore(src.t.l), "buf")
    [] rep.v \in PrimV -> Rep("own", rep.v, "plain", "buf")
    [] rep.v \in DynV /\ rep.f \in {"arc", "aref"} -> Rep("own", rep.v, "arc", rep.o)
    [] rep.v \in {"debug", "display"} -> Rep("own", rep.v, TextStore(FmtLen(src)), "buf")
    [] rep.v \in {"sval", "serde"} /\ Fails(src) -> Rep("own", "poison", "plain", "buf")
    [] rep.v \in DynV -> Rep("own", rep.v, "box", "buf")
    [] OTHER -> Rep("own", "poison", "plain", "buf")     \* poison, failed supplier

IntoSharedRep(rep) ==
  IF rep.v \in DynV /\ rep.f = "box" THEN [rep EXCEPT !.f = "arc"] ELSE rep

OwnRefRep(rep) ==
  CASE rep.f = "arc" -> [rep EXCEPT !.h = "bag", !.f = "aref"]
    [] rep.v \in DynV -> [rep EXCEPT !.h = "bag", !.f = "anon"]
    [] OTHER -> [rep EXCEPT !.h = "bag", !.f = "plain"]

(* What a catch-all visitor receives. *)
VisitAnyRep(rep) == [rep EXCEPT !.f = "local", !.d = FALSE, !.w = FALSE]

(* What a bag shows of itself: for an owned handle, what its view shows.   *)
View(rep) == IF rep.h = "own" THEN OwnRefRep(rep) ELSE rep

(***************************************************************************)
(* Lists.  An element of a captured slice is itself a bag: src and rep.    *)
(* Elements of a buffered list have been buffered one by one.              *)
(***************************************************************************)
ElSrc(src, i) ==
  IF src.ety = "mixed" THEN src.els[i].src
  ELSE [ty |-> src.ety, opt |-> "no", t |-> src.t.xs[i]]
ElRep(rep, src, i) ==
  LET r == IF src.ety = "mixed" THEN src.els[i].rep ELSE DirectRep(src.t.xs[i])
  IN IF rep.o = "buf" THEN View(ToOwnedRep(r, ElSrc(src, i))) ELSE r
ElCount(src) == IF src.ety = "mixed" THEN Len(src.els) ELSE Len(src.t.xs)

(***************************************************************************)
(* Observations of a representation.                                       *)
(***************************************************************************)
(* The leaf a conversion works on. *)
CastLeaf(rep, src) ==
  CASE rep.v \in PrimV \ {"none"} -> src.t
    [] rep.v = "none" -> Leaf("null")
    [] rep.v = "sval" -> SvalPrim(StructTerm(src))
    [] rep.v = "serde" -> SerdePrim(StructTerm(src))
    [] rep.v = "fill_then_fail" -> Leaf("opaque")
    [] OTHER -> Leaf("complex")

(* Whether text can be handed out as borrowed: from the source ("src"),    *)
(* from the owned handle ("own"), "no", or left open ("may").              *)
Bor(rep, leaf) ==
  CASE rep.v = "str" -> IF rep.o = "src" THEN "src" ELSE "own"
    [] rep.v = "sval" /\ leaf.k = "str" ->
         IF "p" \in DOMAIN leaf THEN (IF leaf.p \in {"none", "nested"} \/ rep.o = "buf" THEN "may" ELSE "no")
         ELSE IF rep.d THEN (IF rep.w THEN "may" ELSE "no")
         ELSE IF rep.o = "src" /\ rep.f \in {"cap", "sized", "anon"} THEN "src"
         ELSE "may"
    [] OTHER -> "no"

B(x) == IF x THEN 1 ELSE 0

(* 1: converts to the captured value, 0: nothing, 2: unspecified *)
CastObs(leaf, bor) ==
  LET open   == leaf.k \in {"opaque", "late"}
      n(ty)  == IF open THEN 2 ELSE B(leaf.k = "int" /\ Fits(ty, leaf.r))
      b(x)   == IF open THEN 2 ELSE B(x)
      isstr  == leaf.k \in {"str", "chartext"}
      f64    == IF leaf.k \in {"f32", "f64"} THEN 1
                ELSE IF leaf.k = "int" THEN (IF Signed(leaf.ty) THEN n("i32") ELSE n("u32")) ELSE b(FALSE)
  IN [u8 |-> n("u8"), u16 |-> n("u16"), u32 |-> n("u32"), u64 |-> n("u64"), usize |-> n("usize"), u128 |-> n("u128"),
      i8 |-> n("i8"), i16 |-> n("i16"), i32 |-> n("i32"), i64 |-> n("i64"), isize |-> n("isize"), i128 |-> n("i128"),
      f64 |-> f64,
      asf |-> b(leaf.k \in {"f32", "f64", "int"}),
      bool |-> b(leaf.k = "bool"),
      char |-> b(leaf.k = "char"),
      str |-> IF leaf.k = "label" THEN 2 ELSE b(isstr),
      bstr |-> IF open \/ leaf.k = "label" THEN 2
               ELSE IF ~isstr \/ bor = "no" THEN 0
               ELSE IF bor = "may" THEN 2 ELSE 1]

IntTok(rep) ==
  IF rep.o = "buf" THEN (IF rep.v \in {"signed", "bigsigned"} THEN "i:i*" ELSE "i:u*")
  ELSE CASE rep.v = "signed" -> "i:i64" [] rep.v = "unsigned" -> "i:u64"
         [] rep.v = "bigsigned" -> "i:i128" [] rep.v = "bigunsigned" -> "i:u128"

RECURSIVE OutToks(_, _, _)
OutToks(rep, src, fw) ==
  LET out(x, fails) == IF fails /\ rep.o = "src" THEN <<"FAIL">> ELSE <<x>>
  IN CASE rep.v \in {"signed", "unsigned", "bigsigned", "bigunsigned"} -> <<IntTok(rep)>>
       [] rep.v = "float" -> <<"f:f64">>
       [] rep.v = "char" -> <<IF fw = "sval" THEN "str" ELSE "char">>
       [] rep.v \in {"bool", "str"} -> <<rep.v>>
       [] rep.v = "none" -> <<"null">>
       [] rep.v = "debug" -> out("t:D", FmtFails(src))
       [] rep.v = "display" -> out("t:P", MsgFails(src))
       [] rep.v = "error" -> out("t:P", MsgFails(src))
       [] rep.v \in {"sval", "serde"} -> Toks(StructTerm(src), rep.v = "sval" \/ fw = "sval")
       [] rep.v = "seq" ->
            <<"seq[">>
            \o Flatten([i \in 1..ElCount(src) |-> <<"el">> \o OutToks(ElRep(rep, src, i), ElSrc(src, i), fw)])
            \o <<"]">>
       [] rep.v \in {"poison", "fill_fail", "fill_noop"} -> <<"FAIL">>
       [] rep.v = "fill_then_fail" -> <<"i:u64", "FAIL">>

OutObs(rep, src, fw) ==
  LET ts == OutToks(rep, src, fw)
  IN IF \E i \in DOMAIN ts : ts[i] = "FAIL" THEN [res |-> "err", toks |-> UpToFail(ts)]
     ELSE [res |-> "ok", toks |-> ts]

FmtObs(rep, src, dbg) ==
  CASE rep.v \in PrimV \ {"none"} -> IF dbg THEN "D" ELSE "P"
    [] rep.v = "none" -> "None"
    [] rep.v = "debug" -> IF FmtFails(src) THEN (IF rep.o = "src" THEN "ERR" ELSE "EXPL")
                          ELSE IF rep.o = "src" THEN "D" ELSE "TD"
    [] rep.v = "display" -> IF MsgFails(src) THEN (IF rep.o = "src" THEN "ERR" ELSE "EXPL")
                          ELSE IF rep.o = "src" THEN "P" ELSE "TP"
    [] rep.v = "error" -> IF dbg THEN (IF rep.o = "src" THEN "D" ELSE "OPEN")
                          ELSE IF MsgFails(src) THEN (IF rep.o = "src" THEN "ERR" ELSE "EXPL")
                          ELSE IF rep.o = "src" THEN "P" ELSE "TP"
    [] rep.v = "sval" -> IF Fails(src) THEN "ERR" ELSE "SV"
    [] rep.v = "serde" -> IF Fails(src) THEN "SEX"
                          ELSE IF rep.o = "buf" /\ HasShown(StructTerm(src)) THEN "OPEN" ELSE "SE"
    [] rep.v = "seq" -> "LIST"
    [] rep.v = "poison" -> "POISON"
    [] rep.v \in {"fill_fail", "fill_then_fail"} -> "ERR"
    [] rep.v = "fill_noop" -> "OPEN"

VisitObs(rep, src) ==
  LET leaf == CastLeaf(rep, src)
      bor  == Bor(rep, leaf)
      txt  == CASE bor \in {"src", "own"} -> "bstr" [] bor = "may" -> "str?" [] OTHER -> "str"
      int(t) == IF Wide(t.ty) THEN (IF Signed(t.ty) THEN "i128" ELSE "u128")
                ELSE (IF Signed(t.ty) THEN "i64" ELSE "u64")
  IN CASE rep.v \in {"signed", "bigsigned"} /\ rep.o = "buf" -> "i*"
       [] rep.v \in {"unsigned", "bigunsigned"} /\ rep.o = "buf" -> "u*"
       [] rep.v \in PrimV \ {"none", "str"} -> (IF leaf.k = "int" THEN int(leaf) ELSE IF leaf.k = "f32" THEN "f64" ELSE leaf.k)
       [] rep.v = "str" -> txt
       [] rep.v = "none" -> "empty"
       [] rep.v \in {"debug", "display", "seq"} -> "any"
       [] rep.v = "error" -> IF rep.w THEN "error?" ELSE IF rep.d THEN "error" ELSE IF rep.f \in {"arc", "aref"} THEN "error?" ELSE "berror"
       [] rep.v \in {"sval", "serde"} ->
            (CASE leaf.k = "int" -> int(leaf)
               [] leaf.k \in {"f32", "f64"} -> "f64"
               [] leaf.k \in {"bool", "char"} -> leaf.k
               [] leaf.k = "chartext" -> "str"
               [] leaf.k = "str" -> txt
               [] leaf.k = "null" -> "empty"
               [] leaf.k \in {"complex", "fail"} -> "any"
               [] leaf.k = "late" -> "late"      \* reported as failed, whatever was called
               [] OTHER -> "open")
       [] rep.v \in {"poison", "fill_fail"} -> "ERR"
       [] rep.v = "fill_then_fail" -> "open"
       [] rep.v = "fill_noop" -> "open"

SeqObs(rep, src) ==
  LET shape == SeqShape(StructTerm(src), rep.v)
      xs    == shape.xs
      lbor(r, l) == IF rep.d \/ rep.f /= "anon" \/ rep.o /= "src" THEN "may" ELSE Bor(r, l)
      el(i) == LET r == ElRep(rep, src, i)
                   l == CastLeaf(r, ElSrc(src, i)) IN CastObs(l, lbor(r, l))
      sv(x) == LET l == SvalPrim(x) IN CastObs(l, Bor(rep, l))
      se(x) == CastObs(SerdePrim(x), "no")
  IN CASE rep.v = "seq" -> [kind |-> "yes", els |-> [i \in 1..ElCount(src) |-> el(i)]]
       [] rep.v \in {"sval", "serde"} ->
            IF Fails(src) THEN [kind |-> "open", els |-> <<>>]
            ELSE [kind |-> shape.kind,
                  els |-> [i \in DOMAIN xs |-> IF rep.v = "sval" THEN sv(xs[i]) ELSE se(xs[i])]]
       [] OTHER -> [kind |-> "no", els |-> <<>>]

(* The token naming what is stored. *)
TokenObs(rep, src) ==
  CASE rep.v = "signed" /\ rep.o = "src" -> "i64"
    [] rep.v = "unsigned" /\ rep.o = "src" -> "u64"
    [] rep.v = "bigsigned" -> IF rep.o = "src" THEN "i128" ELSE "i*"
    [] rep.v = "bigunsigned" -> IF rep.o = "src" THEN "u128" ELSE "u*"
    [] rep.v = "debug" -> IF ~FmtFails(src) THEN "t:D" ELSE IF rep.o = "src" THEN "na" ELSE "t:?"
    [] rep.v = "display" -> IF ~MsgFails(src) THEN "t:P" ELSE IF rep.o = "src" THEN "na" ELSE "t:?"
    [] rep.v \in BadFill -> "na"
    [] OTHER -> rep.v

DownObs(rep) ==
  CASE rep.d -> "no"
    [] rep.v \in DynV \ {"seq"} /\ rep.f \in {"cap", "arc", "aref"} /\ rep.o = "src" -> "src"
    [] rep.v = "seq" /\ rep.f \in {"arc", "aref"} -> "open"
    [] OTHER -> "no"

ErrObs(rep) ==
  CASE rep.v /= "error" -> "no"
    [] rep.w -> "open"
    [] rep.d -> "no"
    [] rep.f \in {"arc", "aref"} -> "open"
    [] rep.o = "src" -> "src"
    [] OTHER -> "buf"

(* Why a serializer or visitor is told of a failure: the captured value's  *)
(* own error, the supplier's error, some explanation, or not said here.    *)
RECURSIVE WhySerde(_, _)
WhySerde(rep, src) ==
  CASE rep.v \in {"fill_fail", "fill_then_fail"} -> "supplier"
    [] rep.v \in {"poison", "fill_noop"} -> "text"
    [] rep.v = "serde" /\ rep.o = "src" /\ Fails(src) -> IF HasSvalBag(StructTerm(src)) THEN "any" ELSE "own"
    [] rep.v = "seq" ->
         LET bad == {i \in 1..ElCount(src) : OutObs(ElRep(rep, src, i), ElSrc(src, i), "serde").res = "err"}
         IN IF bad = {} THEN "any"
            ELSE LET i == CHOOSE x \in bad : \A y \in bad : x <= y IN WhySerde(ElRep(rep, src, i), ElSrc(src, i))
    [] OTHER -> "any"
(* ... and when it is the serializer that fails; sval puts its own error in its place. *)
RECURSIVE WhyFault(_, _)
WhyFault(rep, src) ==
  CASE rep.v \in {"sval", "poison"} \cup BadFill -> "any"
    [] rep.v = "serde" -> IF Fails(src) \/ HasSvalBag(StructTerm(src)) THEN "any" ELSE "own"
    [] rep.v = "seq" -> IF \A i \in 1..ElCount(src) : WhyFault(ElRep(rep, src, i), ElSrc(src, i)) = "own" THEN "own" ELSE "any"
    [] OTHER -> IF MsgFails(src) THEN "any" ELSE "own"
WhyVisit(rep, src) ==
  CASE rep.v \in {"fill_fail", "fill_then_fail"} -> "supplier"
    [] rep.v = "poison" \/ VisitObs(rep, src) = "late" -> "text"
    [] OTHER -> "any"

(* May an observation reach the captured object's own code? *)
RECURSIVE Touch(_, _)
Touch(rep, src) ==
  IF rep.v = "seq" /\ rep.o = "buf"
  THEN \E i \in 1..ElCount(src) : Touch(ElRep(rep, src, i), ElSrc(src, i))
  ELSE rep.o = "src"

(* Everything a handle shows. *)
RECURSIVE ObsOf(_, _)
ObsOf(rep0, src) ==
  LET rep  == View(rep0)
      leaf == CastLeaf(rep, src)
  IN [v     |-> rep.v,
      o     |-> rep.o,
      cast  |-> CastObs(leaf, Bor(rep, leaf)),
      own   |-> B(Bor(rep, leaf) = "own"),
      empty |-> B(rep.v = "none" /\ ~rep.d),
      down  |-> DownObs(rep),
      err   |-> ErrObs(rep),
      dbg   |-> FmtObs(rep, src, TRUE),
      dsp   |-> FmtObs(rep, src, FALSE),
      serde |-> IF Has("serde")
                THEN (IF rep.v = "sval" /\ LateEnd(StructTerm(src)) THEN [res |-> "open", toks |-> <<>>] ELSE OutObs(rep, src, "serde"))
                ELSE [res |-> "na", toks |-> <<>>],
      sval  |-> IF Has("sval")
                THEN (IF rep.v = "fill_noop" THEN [res |-> "open", toks |-> <<>>] ELSE OutObs(rep, src, "sval"))
                ELSE [res |-> "na", toks |-> <<>>],
      visit |-> VisitObs(rep, src),
      seq   |-> SeqObs(rep, src),
      token |-> TokenObs(rep, src),
      why   |-> [serde |-> IF Has("serde") THEN WhySerde(rep, src) ELSE "any", fault |-> WhyFault(rep, src), visit |-> WhyVisit(rep, src)],
      runs  |-> B(rep.d \/ rep.v \in BadFill),
      touch |-> B(Touch(rep, src)),
      els   |-> IF rep.v = "seq" THEN [i \in 1..ElCount(src) |-> ObsOf(ElRep(rep, src, i), ElSrc(src, i))]
                ELSE <<>>]

(***************************************************************************)
(* The state machine.                                                      *)
(***************************************************************************)
VARIABLE st
Fresh(s) == [src |-> s]                 \* a source nobody has captured yet
Captured == "rep" \in DOMAIN st

(* Transform a handle: the set of results (empty when not applicable).     *)
BagActs == {"by_ref", "clone", "to_owned", "to_shared", "visit_any", "defer"}
OwnActs == {"own_by_ref", "own_into", "own_clone", "into_shared"}
Acts    == BagActs \cup OwnActs

AfterRep(a, s) ==
  LET r == s.rep IN
  CASE r.h = "bag" /\ a = "by_ref" -> {ByRefRep(r)}
    [] r.h = "bag" /\ a = "clone" -> {r}
    [] r.h = "bag" /\ a = "to_owned" /\ Has("owned") /\ r.v /= "fill_noop" -> {ToOwnedRep(r, s.src)}
    [] r.h = "bag" /\ a = "to_shared" /\ Has("owned") /\ r.v /= "fill_noop" -> {IntoSharedRep(ToOwnedRep(r, s.src))}
    [] r.h = "bag" /\ a = "defer" /\ Defer /\ ~r.d /\ r.v \notin BadFill -> {[r EXCEPT !.d = TRUE, !.w = TRUE]}
    [] r.h = "bag" /\ a = "visit_any" /\ VisitObs(r, s.src) = "any" -> {VisitAnyRep(r)}
    [] r.h = "own" /\ a \in {"own_by_ref", "own_into"} -> {OwnRefRep(r)}
    [] r.h = "own" /\ a = "own_clone" -> {r}
    [] r.h = "own" /\ a = "into_shared" -> {IntoSharedRep(r)}
    [] OTHER -> {}

After(a, s) ==
  {[s EXCEPT !.rep = r, !.m = IF r.v = "poison" THEN [k |-> "poison"] ELSE s.m] : r \in AfterRep(a, s)}

Capture(x)   == ~Captured /\ st' = [src |-> st.src, m |-> x.m, rep |-> x.rep]
Transform(a) == Captured /\ \E s \in After(a, st) : st' = s

Init == \E s \in SrcSet : st = Fresh(s)
Next == \/ \E x \in Routes(st.src) : Capture(x)
        \/ \E a \in Acts : Transform(a)

Spec == Init /\ [][Next]_st
=============================================================================
