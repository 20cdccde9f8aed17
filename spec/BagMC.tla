------------------------------- MODULE BagMC -------------------------------
(***************************************************************************)
(* Bounded sources for Bag, the properties checked on it, and the printing *)
(* of the state graph for replay on the implementation.                    *)
(***************************************************************************)
EXTENDS Bag, Json

CONSTANTS Depth,     \* 1: small structured sources, 2: all of them
          Emit       \* TRUE: print sources and states

Src(ty, opt, t) == [ty |-> ty, opt |-> opt, t |-> t]

(***************************************************************************)
(* Plain sources                                                           *)
(***************************************************************************)
IntLeaves(ty) == {Num(ty, r) : r \in {q \in Ranks : Fits(ty, q)}}
AnyNum(ty) == Num(ty, Hi(ty))

PrimSrcs ==
  LET ints == UNION {{Src(ty, o, t) : o \in {"no", "some"}, t \in IntLeaves(ty)} \cup {Src(ty, "none", AnyNum(ty))}
                      : ty \in IntTypes}
      cls  == [f32 |-> F32Classes, f64 |-> F64Classes, bool |-> BoolClasses, char |-> CharClasses]
      rest == UNION {{Src(k, o, LeafC(k, c)) : o \in {"no", "some"}, c \in cls[k]} \cup
                     {Src(k, o, Leaf(k)) : o \in {"no", "none"}} : k \in DOMAIN cls}
      txt  == {Src(ty, o, Text(l)) : ty \in {"sstr", "string"}, o \in {"no", "some"}, l \in LenClasses}
              \cup {Src(ty, "none", Text(0)) : ty \in {"sstr", "string"}}
              \cup {Src("cow", "no", Text(l)) : l \in LenClasses}
              \cup {Src(ty, "no", TextC(c)) : ty \in {"sstr", "string", "cow"}, c \in TextClasses}
  IN ints \cup rest \cup txt \cup {Src("unit", "no", Leaf("unit"))}

LookNames == {"wrap_u64", "wrap_str", "nonzero", "boxed", "wrapping", "optopt", "ref_u64", "rc_str",
              "box_str", "array", "unit_opt", "atomic", "bytes", "vec", "duration", "tuple1"}
OtherSrcs ==
  {Src("txt", "no", [k |-> "opaque", l |-> l]) : l \in LenClasses}
  \cup {Src("txt", "no", Leaf("fail"))}
  \cup {Src("err", "no", [k |-> "chain", n |-> n]) : n \in 0..3 \cup {9}}
  \cup {Src("err", "no", [k |-> "fail", at |-> i]) : i \in 0..1}     \* which message of the chain fails
  \cup {Src("empty", "no", Leaf("null")), Src("badfill", "no", Leaf("null"))}
  \cup {Src("look", "no", [k |-> "opaque", name |-> n]) : n \in LookNames}

(***************************************************************************)
(* Structured sources                                                      *)
(***************************************************************************)
Wraps == {"some", "newtype", "nvar"}
Lists == {"seq", "tuple", "tstruct", "tvar", "struct", "svar"}

L0 == {Num(ty, r) : ty \in IntTypes \ {"usize", "isize"}, r \in {0}} \cup
      {AnyNum("u8"), AnyNum("u64"), AnyNum("u128"), AnyNum("i64"), AnyNum("i128"),
       Num("i8", -1), Num("i64", -4), Num("i128", -5), Num("usize", 7), Num("isize", -4)} \cup
      {Leaf(k) : k \in {"f32", "f64", "bool", "char", "bytes", "null", "unit", "ustruct", "uvar"}} \cup
      {Text(l) : l \in LenClasses}
a0 == Num("u8", 1)
b0 == Num("i64", -4)
s0 == Text(0)
n0 == Leaf("null")

(* depth 1 *)
T1 == {Node1(w, x) : w \in Wraps, x \in L0}
      \cup {NodeN(l, xs) : l \in Lists, xs \in {<<>>, <<a0>>, <<s0, b0>>, <<n0, Leaf("char"), Leaf("f64")>>}}
      \cup {MapN(m) : m \in {<<>>, <<<<s0, a0>>>>, <<<<a0, b0>>, <<s0, n0>>>>}}
      \cup {NodeN("seq", <<x, y>>) : x \in {a0, b0, s0, n0, Leaf("bool"), Leaf("f32"), Leaf("unit"), Leaf("ustruct"),
                                             Leaf("bytes"), AnyNum("u128"), Num("i128", -5)},
                                      y \in {a0, s0, Leaf("char")}}

(* composites used below another one *)
C1 == {NodeN(l, <<a0, s0>>) : l \in Lists} \cup {NodeN("seq", <<>>), MapN(<<<<s0, a0>>>>), MapN(<<>>)}
      \cup {Node1(w, b0) : w \in Wraps} \cup {Leaf("ustruct"), Leaf("uvar")}
C2 == {Node1("some", NodeN("seq", <<a0, b0>>)), Node1("newtype", NodeN("tuple", <<s0>>)),
       Node1("nvar", MapN(<<<<s0, n0>>>>)), NodeN("seq", <<NodeN("seq", <<a0>>), b0>>),
       NodeN("struct", <<NodeN("seq", <<a0, a0>>), Node1("some", s0)>>),
       MapN(<<<<s0, NodeN("tuple", <<a0, b0>>)>>, <<a0, n0>>>>),
       NodeN("seq", <<NodeN("seq", <<NodeN("seq", <<a0>>), b0>>), s0>>),
       NodeN("tuple", <<a0, NodeN("seq", <<b0, MapN(<<<<s0, NodeN("seq", <<a0>>)>>>>), Leaf("bytes")>>), s0>>),
       NodeN("seq", <<NodeN("struct", <<NodeN("tuple", <<a0, NodeN("seq", <<>>)>>)>>), b0>>)}

T2 == {Node1(w, c) : w \in Wraps, c \in C1 \cup C2}
      \cup {NodeN(l, <<c>>) : l \in Lists, c \in C1}
      \cup {NodeN(l, <<a0, c, s0>>) : l \in Lists, c \in C1 \cup C2}
      \cup {NodeN("seq", <<c, d>>) : c \in C1, d \in C1}
      \cup {MapN(<<<<s0, c>>, <<Text(1), b0>>>>) : c \in C1 \cup C2}
      \cup {MapN(<<<<c, a0>>>>) : c \in {NodeN("tuple", <<a0, b0>>), Node1("some", s0), Leaf("uvar")}}

TBag == {NodeN(l, <<a0, InBagAs(v, x), s0>>) : l \in {"seq", "struct"}, v \in {"sval", "serde"} \cap F,
            x \in {AnyNum("u16"), Leaf("char"), Text(1), Leaf("f32"), Leaf("bytes")} \cup C1}
        \cup {NodeN(l, <<InBagAs("prim", x), b0>>) : l \in {"seq", "tuple"}, x \in
            {AnyNum("u16"), AnyNum("i128"), Leaf("char"), Text(1), Leaf("f32"), Leaf("bool"), Leaf("null")}}
        \cup {NodeN("seq", <<InBagAs(v, Leaf("bool"))>>) : v \in {"debug", "display"}}
        \cup IF ~({"sval", "serde"} \subseteq F) THEN {} ELSE
             {NodeN("struct", <<InBagAs("serde", NodeN("seq", <<InBagAs("sval", NodeN("struct", <<a0, Leaf("char")>>))>>))>>),
              NodeN("struct", <<InBagAs("sval", NodeN("seq", <<InBagAs("serde", NodeN("struct", <<a0, Leaf("char")>>))>>))>>)}

(* every kind of leaf in every kind of place *)
KindLeaves == {Num(ty, 0) : ty \in IntTypes \ {"usize", "isize"}} \cup {AnyNum("u64"), AnyNum("u128"), Num("i128", -5), Num("i64", -4)} \cup
              {Leaf(k) : k \in {"f32", "f64", "bool", "char", "bytes", "null", "unit", "ustruct", "uvar"}} \cup {Text(0), Text(2)}
Places(x) == {NodeN(l, <<x, a0>>) : l \in Lists}
             \cup {MapN(<<<<s0, x>>>>), MapN(<<<<x, a0>>>>),
                   Node1("some", NodeN("seq", <<x>>)), NodeN("seq", <<Node1("some", x), Node1("nvar", x), Node1("newtype", x)>>),
                   NodeN("seq", <<a0, NodeN("seq", <<x>>), s0>>), NodeN("tuple", <<NodeN("tuple", <<x, x>>), b0>>),
                   NodeN("seq", <<NodeN("seq", <<NodeN("seq", <<x, a0>>), x>>), x>>),
                   NodeN("seq", <<a0, NodeN("struct", <<x>>), MapN(<<<<s0, x>>>>), Node1("nvar", NodeN("tuple", <<x>>)), b0>>),
                   NodeN("seq", <<MapN(<<<<NodeN("seq", <<x>>), x>>>>), b0>>)}
TPlace == UNION {Places(x) : x \in KindLeaves}

fl == Leaf("fail")
lt(x) == Node1("late", x)
TFail == {fl} \cup {Node1(w, fl) : w \in Wraps}
         \cup {NodeN(l, xs) : l \in Lists, xs \in {<<fl>>, <<a0, fl>>, <<fl, a0>>, <<s0, fl, b0>>}}
         \cup {MapN(<<<<s0, fl>>>>), MapN(<<<<fl, a0>>>>), MapN(<<<<s0, a0>>, <<a0, fl>>>>), MapN(<<<<s0, a0>>, <<fl, a0>>>>)}
         \cup {NodeN("seq", <<a0, NodeN("struct", <<s0, fl>>), a0>>), Node1("some", NodeN("seq", <<a0, fl>>))}
         \cup {lt(x) : x \in {a0, b0, s0, n0, AnyNum("u128"), Leaf("f64"), Leaf("bool"), Leaf("char"), Leaf("bytes"), NodeN("seq", <<a0>>), Node1("some", s0)}}
         \cup {Node1(w, lt(s0)) : w \in Wraps} \cup {NodeN(l, <<lt(a0), s0>>) : l \in Lists} \cup {MapN(<<<<lt(s0), a0>>>>), MapN(<<<<s0, lt(a0)>>>>)}
         \cup {InBagAs(v, lt(x)) : v \in {"serde"} \cap F, x \in {a0, s0, NodeN("seq", <<a0>>)}}
         \cup {NodeN("seq", <<a0, InBagAs(v, NodeN("seq", <<b0, fl>>)), a0>>) : v \in {"sval", "serde"} \cap F}

(* a bag nested at the top of a value, and text in pieces *)
TTop == {InBagAs(v, x) : v \in {"sval", "serde"} \cap F, x \in L0 \cup C1 \cup {NodeN("seq", <<Leaf("char"), Leaf("unit"), n0, a0>>)}}
        \cup {InBagAs("prim", x) : x \in {AnyNum("u8"), AnyNum("u64"), AnyNum("u128"), Num("i16", -1), Num("i128", -5), Leaf("f32"), Leaf("f64"),
                                         Leaf("bool"), Leaf("char"), Leaf("null"), Text(0), Text(3)}}
        \cup {InBagAs(v, a0) : v \in {"debug", "display"}}
        \cup {Node1("some", InBagAs("prim", Leaf("char"))), Node1("newtype", InBagAs("prim", Text(1)))}
        \cup IF ~({"sval", "serde"} \subseteq F) THEN {} ELSE
             {InBagAs(v, InBagAs(w, x)) : v \in {"sval", "serde"}, w \in {"sval", "serde", "prim"}, x \in {a0, Leaf("char"), Text(1)}}
TPiece == {TextP(l, p) : l \in {0, 2}, p \in Pieces \ {"none"}} \cup {TextP(0, "none")}
          \cup {NodeN(l, <<TextP(0, p), Text(1), TextP(1, q), a0>>) : l \in {"seq", "tuple"}, p \in Pieces, q \in Pieces}
          \cup {Node1("some", TextP(0, p)) : p \in Pieces}
          \cup {NodeN("struct", <<TextP(1, "mix")>>), MapN(<<<<TextP(0, "two"), TextP(0, "temp")>>>>)}

(* many elements, and many levels *)
Times(x, n) == [i \in 1..n |-> x]
RECURSIVE Deep(_, _)
Deep(x, n) == IF n = 0 THEN x
              ELSE LET y == Deep(x, n - 1) IN CASE n % 4 = 0 -> NodeN("seq", <<y, b0>>)
                                                [] n % 4 = 1 -> Node1("some", y)
                                                [] n % 4 = 2 -> NodeN("struct", <<a0, y>>)
                                                [] n % 4 = 3 -> MapN(<<<<s0, y>>>>)
RECURSIVE Over(_, _, _)
Over(k, x, n) == IF n = 0 THEN x ELSE IF k \in Wraps THEN Node1(k, Over(k, x, n - 1)) ELSE NodeN(k, <<Over(k, x, n - 1)>>)
TLong == {NodeN(l, Times(a0, 20)) : l \in Lists} \cup {NodeN("seq", Times(s0, 19) \o <<n0>>), NodeN("tuple", Times(n0, 19) \o <<Num("i128", -5)>>)}
         \cup {MapN(Times(<<s0, b0>>, 12)), NodeN("seq", Times(NodeN("seq", <<a0, b0>>), 9))}
         \cup {Deep(x, 9) : x \in {a0, NodeN("seq", <<a0, s0>>), fl}}
         \cup {Over(k, x, 6) : k \in Wraps \cup {"seq", "tuple"}, x \in {b0, s0, Leaf("char")}}

(* every distinguished value, held as it is, behind temporary text, and in a list *)
Named  == UNION {{LeafC(k, c) : c \in C} : <<k, C>> \in {<<"f32", F32Classes>>, <<"f64", F64Classes>>, <<"bool", BoolClasses>>, <<"char", CharClasses>>}}
          \cup {TextC(c) : c \in TextClasses}
TNamed == Named \cup {[k |-> "str", l |-> 0, c |-> c, p |-> "temp"] : c \in TextClasses \ {"empty"}}

BaseTerms == L0 \cup T1 \cup TFail \cup C1 \cup C2 \cup TNamed
ObjTerms  == BaseTerms \cup TPlace \cup TBag \cup TTop \cup TPiece \cup TLong \cup {NodeN("seq", <<x, a0>>) : x \in Named} \cup (IF Depth >= 2 THEN T2 ELSE {})
Objs(ts)  == IF Has("sval") \/ Has("serde") THEN {Src("obj", "no", t) : t \in ts}
            ELSE {Src("obj", "no", t) : t \in {a0, NodeN("seq", <<a0>>)}}

(***************************************************************************)
(* Lists                                                                   *)
(***************************************************************************)
Slice(ety, xs) == [ty |-> "slice", opt |-> "no", ety |-> ety, t |-> NodeN("seq", xs)]
HomoSlices ==
  UNION {{Slice(ty, <<>>), Slice(ty, <<Num(ty, Lo(ty))>>), Slice(ty, <<Num(ty, Hi(ty)), Num(ty, 0)>>),
          Slice(ty, <<Num(ty, 0), Num(ty, Hi(ty)), Num(ty, Lo(ty)), Num(ty, 0)>>)} : ty \in IntTypes}
  \cup {Slice(k, xs) : k \in {"f32", "f64", "bool", "char"}, xs \in {<<>>}}
  \cup UNION {{Slice(k, <<Leaf(k)>>), Slice(k, <<Leaf(k), Leaf(k), Leaf(k)>>)} : k \in {"f32", "f64", "bool", "char"}}
  \cup {Slice(k, xs) : k \in {"sstr", "string"}, xs \in {<<>>, <<Text(0)>>, <<Text(1), Text(0)>>, <<Text(3), Text(2), Text(0)>>, Times(Text(0), 20)}}
  \cup {Slice(ty, Times(Num(ty, 0), 19) \o <<Num(ty, Hi(ty))>>) : ty \in IntTypes} \cup {Slice(k, Times(Leaf(k), 20)) : k \in {"f32", "f64", "bool", "char"}}

(* Elements of a mixed list: a source and the route that captures it. *)
ElPick == {<<Src("u64", "no", Num("u64", 7)), "into_ref">>,
           <<Src("i8", "no", Num("i8", -1)), "capture_debug">>,
           <<Src("f32", "no", Leaf("f32")), "ctor">>,
           <<Src("string", "no", Text(1)), "into_ref">>,
           <<Src("char", "no", Leaf("char")), "capture_display">>,
           <<Src("i64", "none", Num("i64", 0)), "option_val">>,
           <<Src("bool", "some", Leaf("bool")), "into_val">>,
           <<Src("u128", "no", Num("u128", 9)), "into_ref">>,
           <<Src("txt", "no", [k |-> "opaque", l |-> 1]), "from_debug">>,
           <<Src("txt", "no", [k |-> "opaque", l |-> 3]), "capture_display">>,
           <<Src("txt", "no", Leaf("fail")), "from_display">>,
           <<Src("txt", "no", [k |-> "opaque", l |-> 0]), "shared_debug">>,
           <<Src("err", "no", [k |-> "chain", n |-> 2]), "capture_error">>,
           <<Src("i32", "no", Num("i32", -3)), "fill_any">>,
           <<Src("txt", "no", [k |-> "opaque", l |-> 0]), "fill_debug">>,
           <<Slice("u16", <<Num("u16", 3), Num("u16", 0)>>), "into_array">>,
           <<Slice("sstr", <<Text(0)>>), "shared_seq_slice">>}
          \cup {<<Src("obj", "no", t), r>> : t \in {a0, s0, NodeN("seq", <<a0, b0>>), NodeN("struct", <<a0, s0>>),
                                                     Node1("some", Leaf("char")), NodeN("seq", <<a0, fl>>), fl},
                                             r \in {"capture_serde1", "from_sval2", "from_serde1", "capture_sval2"}}
El(p) == LET rs == {x \in Routes(p[1]) : x.r = p[2]}
         IN IF rs = {} THEN <<>> ELSE LET x == CHOOSE y \in rs : TRUE IN <<[src |-> p[1], rep |-> x.rep, route |-> x.r]>>
Els == UNION {{El(p)} : p \in ElPick}
Mixed(es) == [ty |-> "slice", opt |-> "no", ety |-> "mixed", els |-> es, t |-> Leaf("null")]
e1 == El(<<Src("u64", "no", Num("u64", 7)), "into_ref">>)
e2 == El(<<Src("string", "no", Text(1)), "into_ref">>)
MixedSlices ==
  IF ~Has("seq") THEN {} ELSE
  {Mixed(<<>>)} \cup {Mixed(e) : e \in Els} \cup {Mixed(e1 \o e \o e2) : e \in Els} \cup {Mixed(Flatten(Times(e1 \o e2, 10)))}
  \cup (IF Depth >= 2 THEN {Mixed(e \o f) : e \in Els, f \in Els} ELSE {})

SliceSrcs == IF Has("seq") THEN HomoSlices \cup MixedSlices ELSE {}

(* Everything, and the parts that bear on some property. *)
AllSrcs    == PrimSrcs \cup OtherSrcs \cup Objs(ObjTerms) \cup SliceSrcs
BaseSrcs   == PrimSrcs \cup OtherSrcs \cup Objs(IF Depth >= 2 THEN ObjTerms ELSE BaseTerms \cup TTop \cup TPiece) \cup SliceSrcs
StructSrcs == OtherSrcs \cup Objs(ObjTerms) \cup SliceSrcs
TextSrcs   == {s \in PrimSrcs : s.ty \in {"sstr", "string", "cow", "char"}} \cup OtherSrcs \cup SliceSrcs \cup Objs(TPiece)
OddSrcs    == OtherSrcs \cup Objs(TFail) \cup SliceSrcs

(***************************************************************************)
(* Properties.  Meaning of a capture, independent of its representation.   *)
(***************************************************************************)
Live == Captured
Obs  == ObsOf(st.rep, st.src)

MLeaf(m, src) ==
  CASE m.k = "prim" -> m.t
    [] m.k = "empty" -> Leaf("null")
    [] m.k = "sval" -> SvalPrim(StructTerm(src))
    [] m.k = "serde" -> SerdePrim(StructTerm(src))
    [] OTHER -> Leaf("complex")
ML == MLeaf(st.m, st.src)

TypeOK == Live => /\ st.rep.h \in {"bag", "own"}
                  /\ st.rep.v \in PrimV \cup DynV \cup {"poison"} \cup BadFill
                  /\ st.rep.o \in {"src", "buf"}
                  /\ (st.rep.h = "own" => st.rep.f \in {"plain", "inline", "box", "arc"} /\ ~st.rep.d)

(* a value that fails after presenting a primitive converts as it likes *)
Decided == Live /\ st.m.k /= "fill_then_fail" /\ ML.k /= "late"
P01 == Decided => \A ty \in IntTypes :
         IF ML.k = "int" THEN Obs.cast[ty] = B(Fits(ty, ML.r)) ELSE Obs.cast[ty] = 0
P02 == Decided =>
  /\ Obs.cast.f64 = B(\/ ML.k \in {"f32", "f64"}
                      \/ ML.k = "int" /\ Fits(IF Signed(ML.ty) THEN "i32" ELSE "u32", ML.r))
  /\ Obs.cast.asf = B(ML.k \in {"f32", "f64", "int"})
P03 == Decided =>
  /\ Obs.cast.bool = B(ML.k = "bool")
  /\ Obs.cast.char = B(ML.k = "char")
  /\ Obs.cast.str /= 2 => Obs.cast.str = B(ML.k \in {"str", "chartext"})
  /\ Obs.cast.bstr = 1 => Obs.cast.str = 1
P04 == Live => /\ (Obs.empty = 1 <=> st.m.k = "empty" /\ ~st.rep.d)
               /\ (st.m.k = "prim" => Obs.visit \notin {"any", "empty", "error", "berror"})
               /\ (st.m.k = "empty" => Obs.visit = "empty")
P05 == Live => (Obs.down = "src" => st.rep.o = "src" /\ ~st.rep.d /\ st.m.k \notin {"prim", "empty", "poison"})
P06 == Live =>
  /\ st.m.k = "prim"  => Obs.dbg = "D" /\ Obs.dsp = "P"
  /\ st.m.k = "empty" => Obs.dbg = "None" /\ Obs.dsp = "None"
  /\ st.m.k = "dbg"   => Obs.dbg = Obs.dsp /\ Obs.dbg \in {"D", "TD", "ERR", "EXPL"}
  /\ st.m.k = "dsp"   => Obs.dbg = Obs.dsp /\ Obs.dbg \in {"P", "TP", "ERR", "EXPL"}
  /\ st.m.k = "err"   => Obs.dsp \in {"P", "TP", "ERR", "EXPL"}
  /\ st.m.k = "sval"  => Obs.dbg = Obs.dsp /\ Obs.dbg \in {"SV", "ERR"}
  /\ st.m.k = "serde" => Obs.dbg = Obs.dsp /\ Obs.dbg \in {"SE", "SEX", "OPEN"}

(* Output of the meaning: what the captured thing itself presents. *)
RECURSIVE Same(_, _)
Widen(x) == IF x \in {"i:u64", "i:u128"} THEN "i:u*" ELSE IF x \in {"i:i64", "i:i128"} THEN "i:i*" ELSE x
Same(a, b) == /\ Len(a) = Len(b)
              /\ \A i \in DOMAIN a : a[i] = b[i] \/ Widen(a[i]) = Widen(b[i])
MeanToks(fw) ==
  CASE st.m.k = "prim" -> <<BagTok(st.m.t, fw = "sval")>>
    [] st.m.k = "empty" -> <<"null">>
    [] st.m.k = "dbg" -> <<"t:D">>
    [] st.m.k \in {"dsp", "err"} -> <<"t:P">>
    [] st.m.k \in {"sval", "serde"} -> Toks(StructTerm(st.src), fw = "sval" \/ st.m.k = "sval")
OutOK(fw, o) ==
  Live /\ o.res \in {"ok", "err"} /\ st.m.k \notin {"poison", "list"} \cup BadFill =>
     LET ts == MeanToks(fw) IN
     IF o.res = "ok" THEN Same(o.toks, ts) ELSE Fails(st.src) /\ (st.src.ty \in {"txt", "err"} \/ Same(o.toks, UpToFail(ts)))
P07 == OutOK("serde", Obs.serde)
P08 == OutOK("sval", Obs.sval)
P09 == Live /\ st.m.k \in {"sval", "serde"} /\ Has("sval") /\ Has("serde") =>
         LET tr(ts) == [i \in DOMAIN ts |-> IF ts[i] = "char" THEN "str" ELSE ts[i]]
         IN Obs.serde.res = "open" \/ (tr(Obs.serde.toks) = tr(Obs.sval.toks) /\ Obs.serde.res = Obs.sval.res)
P10 == Live => CASE ML.k = "int" -> Obs.visit \in (IF Signed(ML.ty) THEN {"i64", "i128", "i*"} ELSE {"u64", "u128", "u*"})
                 [] ML.k \in {"f32", "f64"} -> Obs.visit = "f64"
                 [] ML.k \in {"bool", "char"} -> Obs.visit = ML.k
                 [] ML.k \in {"str", "chartext"} -> Obs.visit \in {"str", "bstr", "str?"}
                 [] ML.k = "null" -> Obs.visit = "empty"
                 [] st.m.k = "err" -> Obs.visit \in {"error", "berror", "error?"}
                 [] st.m.k = "poison" -> Obs.visit = "ERR"
                 [] ML.k = "late" -> Obs.visit = "late"
                 [] st.m.k \in BadFill -> TRUE
                 [] OTHER -> Obs.visit \in {"any", "open"}
P17 == Live => (Obs.seq.kind = "yes" => st.m.k \in {"list", "sval", "serde"})
P19 == Live => (Obs.err \in {"src", "buf"} => st.m.k = "err")
P20 == Live /\ st.m.k = "poison" =>
         /\ \A k \in DOMAIN Obs.cast : Obs.cast[k] = 0
         /\ Obs.empty = 0 /\ Obs.visit = "ERR" /\ Obs.dbg = "POISON"
         /\ Obs.serde.res \in {"err", "na"} /\ Obs.sval.res \in {"err", "na"}
P26 == Live =>
  /\ st.m.k \in {"fill_fail", "fill_then_fail"} => Obs.why.visit = "supplier" /\ Obs.why.serde \in {"supplier", "any"}
  /\ st.m.k = "poison" => Obs.why.visit = "text"
  /\ st.m.k = "serde" /\ Fails(st.src) => Obs.why.serde = "own" \/ HasSvalBag(StructTerm(st.src))
P25 == Live =>
  CASE st.m.k = "prim" -> Obs.token \in (IF ML.k = "int" THEN (IF Signed(ML.ty) THEN {"i64", "i128", "i*"} ELSE {"u64", "u128", "u*"})
                                          ELSE IF ML.k \in {"f32", "f64"} THEN {"float"} ELSE {ML.k})
    [] st.m.k = "empty" -> Obs.token = "none"
    [] st.m.k = "dbg" -> Obs.token \in {"t:D", "t:?", "na"}
    [] st.m.k = "dsp" -> Obs.token \in {"t:P", "t:?", "na"}
    [] st.m.k = "err" -> Obs.token = "error"
    [] st.m.k \in {"sval", "serde", "poison"} -> Obs.token = st.m.k
    [] st.m.k = "list" -> Obs.token = "seq"
    [] OTHER -> Obs.token = "na"
P22 == Live /\ st.rep.v \in {"sval", "serde"} /\ Fails(st.src) => Obs.serde.res \in {"err", "na"} \cup (IF LateEnd(StructTerm(st.src)) THEN {"open"} ELSE {}) /\ Obs.sval.res \in {"err", "na"}

(* P11: a deferred handle shows what the content shows. *)
P11 == Live /\ st.rep.d =>
   LET o == ObsOf([st.rep EXCEPT !.d = FALSE], st.src) IN
     /\ \A k \in DOMAIN o.cast \ {"bstr"} : Obs.cast[k] = o.cast[k]
     /\ Obs.dbg = o.dbg /\ Obs.dsp = o.dsp /\ Obs.serde = o.serde /\ Obs.sval = o.sval
     /\ Obs.empty = 0 /\ Obs.down = "no" /\ Obs.runs = 1

(* P12, P13: action properties.  o' may differ from o only as allowed. *)
Kind(v) == CASE v \in {"u64", "u128", "u*"} -> "uint" [] v \in {"i64", "i128", "i*"} -> "sint"
             [] v \in {"str", "bstr", "str?"} -> "str" [] v \in {"error", "berror", "error?"} -> "error" [] OTHER -> v
Transparent(o, p) ==
  /\ \A k \in DOMAIN o.cast : o.cast[k] = p.cast[k]
  /\ o.empty = p.empty /\ o.down = p.down /\ o.dbg = p.dbg /\ o.dsp = p.dsp
  /\ o.serde = p.serde /\ o.sval = p.sval /\ o.visit = p.visit /\ o.seq = p.seq /\ o.err = p.err
Keeps(o, p) ==
  /\ \A k \in DOMAIN o.cast \ {"bstr"} : o.cast[k] = p.cast[k]
  /\ (p.serde.res = o.serde.res /\ Same(o.serde.toks, p.serde.toks)) \/ o.serde.res \in {"err", "open"}
  /\ (p.sval.res = o.sval.res /\ Same(o.sval.toks, p.sval.toks)) \/ o.sval.res = "err"
  /\ Kind(o.visit) = Kind(p.visit)
  /\ o.seq.kind = p.seq.kind /\ Len(o.seq.els) = Len(p.seq.els)
  /\ \A i \in DOMAIN o.seq.els : \A k \in DOMAIN o.cast \ {"bstr"} : o.seq.els[i][k] = p.seq.els[i][k]
P12 == Live => \A a \in {"by_ref", "clone", "own_clone"} : \A s \in After(a, st) :
                  Transparent(Obs, ObsOf(s.rep, s.src))
P13 == Live => \A a \in {"to_owned", "to_shared", "into_shared", "own_by_ref", "own_into"} : \A s \in After(a, st) :
                  s.rep.v /= "poison" /\ st.rep.v \notin BadFill => Keeps(Obs, ObsOf(s.rep, s.src))
(* buffering again changes nothing further *)
P13b == Live /\ st.rep.h = "own" =>
          \A b \in After("own_by_ref", st) : \A c \in After("to_owned", b) :
             LET o == ObsOf(c.rep, c.src) IN
             o = Obs

(***************************************************************************)
(* Printing                                                                *)
(***************************************************************************)
Key(r) == r.h \o "." \o r.v \o "." \o r.f \o "." \o r.o \o (IF r.d THEN ".d" ELSE "") \o (IF r.w THEN ".w" ELSE "")

PrintSource ==
  PrintT("S" \o ToJson([src |-> st.src, refused |-> Refused(st.src),
                    routes |-> {[r |-> x.r, to |-> Key(x.rep), m |-> x.m.k] : x \in Routes(st.src)}]))
PrintState ==
  IF ~Emit THEN TRUE ELSE
  IF ~Captured THEN PrintSource ELSE
    PrintT("N" \o ToJson([src |-> st.src, key |-> Key(st.rep), m |-> st.m.k, v |-> st.rep.v, obs |-> Obs,
                    next |-> UNION {{[a |-> a, to |-> Key(s.rep)] : s \in After(a, st)} : a \in Acts}]))
=============================================================================
