------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Numbers and texts as the code can distinguish them.                     *)
(*                                                                         *)
(* An integer is represented by the rank of the interval it lies in.  The  *)
(* intervals are delimited by the minimum and maximum of every Rust        *)
(* integer type, so any range check is a comparison of ranks and is exact: *)
(*                                                                         *)
(*  -5 [i128::MIN, i64::MIN)     0 [0, i8::MAX]        5 (i32::MAX, u32::MAX] *)
(*  -4 [i64::MIN, i32::MIN)      1 (i8::MAX, u8::MAX]  6 (u32::MAX, i64::MAX] *)
(*  -3 [i32::MIN, i16::MIN)      2 (u8, i16::MAX]      7 (i64::MAX, u64::MAX] *)
(*  -2 [i16::MIN, i8::MIN)       3 (i16, u16::MAX]     8 (u64::MAX, i128::MAX]*)
(*  -1 [i8::MIN, 0)              4 (u16, i32::MAX]     9 (i128::MAX, u128::MAX]*)
(*                                                                         *)
(* usize/isize are 64 bits wide on the checked platform.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

UIntTypes == {"u8", "u16", "u32", "u64", "usize", "u128"}
IIntTypes == {"i8", "i16", "i32", "i64", "isize", "i128"}
IntTypes  == UIntTypes \cup IIntTypes

Ranks == -5..9

Lo(t) == CASE t \in UIntTypes -> 0
           [] t = "i8" -> -1
           [] t = "i16" -> -2
           [] t = "i32" -> -3
           [] t \in {"i64", "isize"} -> -4
           [] t = "i128" -> -5

Hi(t) == CASE t = "i8" -> 0
           [] t = "u8" -> 1
           [] t = "i16" -> 2
           [] t = "u16" -> 3
           [] t = "i32" -> 4
           [] t = "u32" -> 5
           [] t \in {"i64", "isize"} -> 6
           [] t \in {"u64", "usize"} -> 7
           [] t = "i128" -> 8
           [] t = "u128" -> 9

Fits(t, r) == Lo(t) <= r /\ r <= Hi(t)

Wide(t) == t \in {"u128", "i128"}
Signed(t) == t \in IIntTypes

(* Text length classes: 0 = 0..22 bytes, 1 = 23..46, 2 = 47..64, 3 = 65.. *)
LenClasses == 0..3

(* Distinguished values of the types without an order on them.  A leaf may *)
(* carry one of these in field c; a leaf without it stands for any value.  *)
F64Classes  == {"frac", "int", "zero", "negzero", "nan", "inf", "neginf", "sub", "minpos", "max", "min",
                "e21", "neg", "above24", "above53", "small"}
F32Classes  == {"frac", "int", "zero", "negzero", "nan", "inf", "neginf", "sub", "minpos", "max", "above24"}
CharClasses == {"letter", "digit", "nul", "quote", "dquote", "two", "three", "four", "last"}
BoolClasses == {"true", "false"}
TextClasses == {"empty", "digits", "negative", "float", "true", "false", "letter", "nan", "none", "null", "wide", "control",
                "nul", "nulend", "space", "newline", "hex", "plus", "exp", "inf", "quoted", "mark", "some", "unit", "big",
                "combining", "comma"}
=============================================================================
