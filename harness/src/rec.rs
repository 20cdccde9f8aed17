//! Consumers that write down every call they get, and can fail at any of them.

use crate::lv::LV;
use crate::obj::FIELDS;
use std::fmt;

#[derive(Debug, Clone)]
pub struct Tok {
    pub t: String,
    pub v: Option<LV>,
}

#[derive(Default, Debug)]
pub struct Rec {
    pub toks: Vec<Tok>,
    /// Names of all calls, in order.
    pub calls: Vec<&'static str>,
    /// Fail at this call.
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub after_fail: bool,
    /// Malformed use of the consumer interface, or wrong names.
    pub bad: Vec<String>,
    /// Fragments marked as borrowed: address and length.
    pub borrowed: Vec<(usize, usize)>,
    /// Computed (not borrowed) non-empty text fragments.
    pub computed: usize,
    stack: Vec<(&'static str, usize)>,
    text: Option<String>,
    bin: Option<Vec<u8>>,
    in_enum: Vec<bool>,
    done: usize,
}

/// The message of a consumer that is told to fail.
pub const INJECTED: &str = "consumer failed";

#[derive(Debug)]
pub struct RecErr(pub String);
impl fmt::Display for RecErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RecErr {}
impl serde::ser::Error for RecErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        RecErr(m.to_string())
    }
}

impl Rec {
    pub fn new(fail_at: Option<usize>) -> Rec {
        Rec { fail_at, ..Rec::default() }
    }

    /// Account for one call; true when it must fail.
    fn call(&mut self, name: &'static str) -> bool {
        if self.failed {
            self.after_fail = true;
        }
        if self.fail_at == Some(self.calls.len()) {
            self.failed = true;
        }
        self.calls.push(name);
        self.failed
    }

    fn push(&mut self, t: impl Into<String>, v: Option<LV>) {
        self.toks.push(Tok { t: t.into(), v });
    }

    /// A complete scalar.
    fn scalar(&mut self, t: impl Into<String>, v: Option<LV>) {
        self.push(t, v);
        if self.stack.is_empty() {
            self.done += 1;
        }
    }

    fn open(&mut self, t: &'static str) {
        self.push(format!("{t}["), None);
        self.stack.push((t, 0));
    }

    fn close(&mut self, t: &'static str) {
        self.push("]", None);
        match self.stack.pop() {
            Some((o, _)) if o == t => (),
            o => self.bad.push(format!("end of {t} closes {o:?}")),
        }
        if self.stack.is_empty() {
            self.done += 1;
        }
    }

    fn el(&mut self, field: Option<&str>) {
        self.push("el", None);
        if let Some((_, i)) = self.stack.last_mut() {
            let at = *i;
            *i += 1;
            if let Some(name) = field {
                if FIELDS.get(at).copied() != Some(name) {
                    self.bad.push(format!("field {at} is named {name}"));
                }
            }
        } else {
            self.bad.push("element outside of a list".into());
        }
    }

    fn name(&mut self, n: &str) {
        if n != "N" {
            self.bad.push(format!("type name {n}"));
        }
    }

    fn variant(&mut self, i: u32, v: &str) {
        if v != "V" || i != 1 {
            self.bad.push(format!("variant {i} {v}"));
        }
    }

    /// Was exactly one complete value received?
    pub fn complete(&self) -> bool {
        self.stack.is_empty() && self.done == 1 && self.text.is_none() && self.bin.is_none()
    }
}

pub fn show(toks: &[Tok]) -> String {
    let mut s = String::new();
    for t in toks {
        if !s.is_empty() {
            s.push(' ');
        }
        s.push_str(&t.t);
        if let Some(v) = &t.v {
            s.push('=');
            match v {
                LV::F(x) => s.push_str(&crate::lv::show_f64(*x)),
                LV::F32(x) => s.push_str(&crate::lv::show_f64(*x as f64)),
                v => s.push_str(&format!("{v:?}")),
            }
        }
    }
    s
}

mod se {
    use super::*;
    use serde::ser::*;

    fn err<T>() -> Result<T, RecErr> {
        Err(RecErr(INJECTED.into()))
    }

    macro_rules! scalars {
        ($($f:ident $t:ty, $tok:literal, $v:ident => $e:expr;)*) => {$(
            fn $f(self, $v: $t) -> Result<(), RecErr> {
                if self.call(stringify!($f)) { return err(); }
                self.scalar($tok, Some($e));
                Ok(())
            }
        )*};
    }

    pub struct Sub<'a>(&'a mut Rec, &'static str);

    impl<'a> Serializer for &'a mut Rec {
        type Ok = ();
        type Error = RecErr;
        type SerializeSeq = Sub<'a>;
        type SerializeTuple = Sub<'a>;
        type SerializeTupleStruct = Sub<'a>;
        type SerializeTupleVariant = Sub<'a>;
        type SerializeMap = Sub<'a>;
        type SerializeStruct = Sub<'a>;
        type SerializeStructVariant = Sub<'a>;

        scalars! {
            serialize_bool bool, "bool", v => LV::Bool(v);
            serialize_u8 u8, "i:u8", v => LV::U(v as u128);
            serialize_u16 u16, "i:u16", v => LV::U(v as u128);
            serialize_u32 u32, "i:u32", v => LV::U(v as u128);
            serialize_u64 u64, "i:u64", v => LV::U(v as u128);
            serialize_u128 u128, "i:u128", v => LV::U(v);
            serialize_i8 i8, "i:i8", v => LV::I(v as i128);
            serialize_i16 i16, "i:i16", v => LV::I(v as i128);
            serialize_i32 i32, "i:i32", v => LV::I(v as i128);
            serialize_i64 i64, "i:i64", v => LV::I(v as i128);
            serialize_i128 i128, "i:i128", v => LV::I(v);
            serialize_f32 f32, "f:f32", v => LV::F32(v);
            serialize_f64 f64, "f:f64", v => LV::F(v);
            serialize_char char, "char", v => LV::Char(v);
            serialize_str &str, "str", v => LV::Str(v.into());
            serialize_bytes &[u8], "bytes", v => LV::Bytes(v.into());
        }

        fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> Result<(), RecErr> {
            use fmt::Write;
            if self.call("collect_str") {
                return err();
            }
            let mut s = String::new();
            if write!(s, "{v}").is_err() {
                return Err(RecErr("value does not format".into()));
            }
            self.scalar("str", Some(LV::Str(s)));
            Ok(())
        }

        fn serialize_none(self) -> Result<(), RecErr> {
            if self.call("serialize_none") {
                return err();
            }
            self.scalar("null", None);
            Ok(())
        }
        fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), RecErr> {
            if self.call("serialize_some") {
                return err();
            }
            self.push("some", None);
            v.serialize(self)
        }
        fn serialize_unit(self) -> Result<(), RecErr> {
            if self.call("serialize_unit") {
                return err();
            }
            self.scalar("unit", None);
            Ok(())
        }
        fn serialize_unit_struct(self, n: &'static str) -> Result<(), RecErr> {
            if self.call("serialize_unit_struct") {
                return err();
            }
            self.name(n);
            self.scalar("ustruct", None);
            Ok(())
        }
        fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), RecErr> {
            if self.call("serialize_unit_variant") {
                return err();
            }
            self.name(n);
            self.variant(i, v);
            self.scalar("uvar", None);
            Ok(())
        }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<(), RecErr> {
            if self.call("serialize_newtype_struct") {
                return err();
            }
            self.name(n);
            self.push("newtype", None);
            v.serialize(self)
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(
            self,
            n: &'static str,
            i: u32,
            v: &'static str,
            x: &T,
        ) -> Result<(), RecErr> {
            if self.call("serialize_newtype_variant") {
                return err();
            }
            self.name(n);
            self.variant(i, v);
            self.push("nvar", None);
            x.serialize(self)
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Sub<'a>, RecErr> {
            if self.call("serialize_seq") {
                return err();
            }
            self.open("seq");
            Ok(Sub(self, "seq"))
        }
        fn serialize_tuple(self, _: usize) -> Result<Sub<'a>, RecErr> {
            if self.call("serialize_tuple") {
                return err();
            }
            self.open("tuple");
            Ok(Sub(self, "tuple"))
        }
        fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<Sub<'a>, RecErr> {
            if self.call("serialize_tuple_struct") {
                return err();
            }
            self.name(n);
            self.open("tstruct");
            Ok(Sub(self, "tstruct"))
        }
        fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, _: usize) -> Result<Sub<'a>, RecErr> {
            if self.call("serialize_tuple_variant") {
                return err();
            }
            self.name(n);
            self.variant(i, v);
            self.open("tvar");
            Ok(Sub(self, "tvar"))
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Sub<'a>, RecErr> {
            if self.call("serialize_map") {
                return err();
            }
            self.open("map");
            Ok(Sub(self, "map"))
        }
        fn serialize_struct(self, n: &'static str, _: usize) -> Result<Sub<'a>, RecErr> {
            if self.call("serialize_struct") {
                return err();
            }
            self.name(n);
            self.open("struct");
            Ok(Sub(self, "struct"))
        }
        fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, _: usize) -> Result<Sub<'a>, RecErr> {
            if self.call("serialize_struct_variant") {
                return err();
            }
            self.name(n);
            self.variant(i, v);
            self.open("svar");
            Ok(Sub(self, "svar"))
        }
    }

    impl Sub<'_> {
        fn item<T: Serialize + ?Sized>(&mut self, field: Option<&'static str>, v: &T) -> Result<(), RecErr> {
            if self.0.call("element") {
                return err();
            }
            self.0.el(field);
            v.serialize(&mut *self.0)
        }
        fn finish(self) -> Result<(), RecErr> {
            if self.0.call("end") {
                return err();
            }
            self.0.close(self.1);
            Ok(())
        }
    }

    macro_rules! subs {
        ($($tr:ident $f:ident;)*) => {$(
            impl $tr for Sub<'_> {
                type Ok = ();
                type Error = RecErr;
                fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> { self.item(None, v) }
                fn end(self) -> Result<(), RecErr> { self.finish() }
            }
        )*};
    }
    subs! {
        SerializeSeq serialize_element;
        SerializeTuple serialize_element;
        SerializeTupleStruct serialize_field;
        SerializeTupleVariant serialize_field;
    }
    macro_rules! fields {
        ($($tr:ident;)*) => {$(
            impl $tr for Sub<'_> {
                type Ok = ();
                type Error = RecErr;
                fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), RecErr> {
                    self.item(Some(k), v)
                }
                fn end(self) -> Result<(), RecErr> { self.finish() }
            }
        )*};
    }
    fields! { SerializeStruct; SerializeStructVariant; }

    impl SerializeMap for Sub<'_> {
        type Ok = ();
        type Error = RecErr;
        fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), RecErr> {
            if self.0.call("key") {
                return err();
            }
            self.0.push("key", None);
            k.serialize(&mut *self.0)
        }
        fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
            if self.0.call("value") {
                return err();
            }
            self.0.push("val", None);
            v.serialize(&mut *self.0)
        }
        fn end(self) -> Result<(), RecErr> {
            self.finish()
        }
    }
}

#[cfg(feature = "sval")]
mod sv {
    use super::*;
    use sval::{tags, Index, Label, Stream, Tag};

    macro_rules! step {
        ($self:ident, $name:literal) => {
            if $self.call($name) {
                return sval::error();
            }
        };
    }

    macro_rules! scalars {
        ($($f:ident $t:ty, $tok:literal, $v:ident => $e:expr;)*) => {$(
            fn $f(&mut self, $v: $t) -> sval::Result {
                step!(self, $tok);
                self.scalar($tok, Some($e));
                Ok(())
            }
        )*};
    }

    impl Rec {
        fn lab(&mut self, l: Option<&Label>) {
            match l {
                Some(l) => self.name(l.as_str()),
                None => self.bad.push("missing type name".into()),
            }
        }
        fn var(&mut self, l: Option<&Label>, i: Option<&Index>) {
            let v = l.map(|l| l.as_str().to_string()).unwrap_or_default();
            let i = i.and_then(|i| i.to_u32()).unwrap_or(u32::MAX);
            self.variant(i, &v);
        }
        /// Are we directly inside an enum? (consumed)
        fn enumish(&mut self) -> bool {
            match self.in_enum.last_mut() {
                Some(e) if *e => {
                    *e = false;
                    true
                }
                _ => false,
            }
        }
        fn frag(&mut self, s: &str) {
            match &mut self.text {
                Some(t) => t.push_str(s),
                None => self.bad.push("text fragment outside of text".into()),
            }
        }
    }

    impl<'s> Stream<'s> for Rec {
        scalars! {
            bool bool, "bool", v => LV::Bool(v);
            u8 u8, "i:u8", v => LV::U(v as u128);
            u16 u16, "i:u16", v => LV::U(v as u128);
            u32 u32, "i:u32", v => LV::U(v as u128);
            u64 u64, "i:u64", v => LV::U(v as u128);
            u128 u128, "i:u128", v => LV::U(v);
            i8 i8, "i:i8", v => LV::I(v as i128);
            i16 i16, "i:i16", v => LV::I(v as i128);
            i32 i32, "i:i32", v => LV::I(v as i128);
            i64 i64, "i:i64", v => LV::I(v as i128);
            i128 i128, "i:i128", v => LV::I(v);
            f32 f32, "f:f32", v => LV::F32(v);
            f64 f64, "f:f64", v => LV::F(v);
        }
        fn null(&mut self) -> sval::Result {
            step!(self, "null");
            self.scalar("null", None);
            Ok(())
        }
        fn text_begin(&mut self, _: Option<usize>) -> sval::Result {
            step!(self, "text_begin");
            if self.text.is_some() {
                self.bad.push("text inside text".into());
            }
            self.text = Some(String::new());
            Ok(())
        }
        fn text_fragment(&mut self, s: &'s str) -> sval::Result {
            step!(self, "text_fragment");
            self.borrowed.push((s.as_ptr() as usize, s.len()));
            self.frag(s);
            Ok(())
        }
        fn text_fragment_computed(&mut self, s: &str) -> sval::Result {
            step!(self, "text_fragment_computed");
            if !s.is_empty() {
                self.computed += 1;
            }
            self.frag(s);
            Ok(())
        }
        fn text_end(&mut self) -> sval::Result {
            step!(self, "text_end");
            match self.text.take() {
                Some(t) => self.scalar("str", Some(LV::Str(t))),
                None => self.bad.push("end of text without text".into()),
            }
            Ok(())
        }
        fn binary_begin(&mut self, _: Option<usize>) -> sval::Result {
            step!(self, "binary_begin");
            self.bin = Some(vec![]);
            Ok(())
        }
        fn binary_fragment_computed(&mut self, s: &[u8]) -> sval::Result {
            step!(self, "binary_fragment");
            match &mut self.bin {
                Some(b) => b.extend_from_slice(s),
                None => self.bad.push("binary fragment outside of binary".into()),
            }
            Ok(())
        }
        fn binary_end(&mut self) -> sval::Result {
            step!(self, "binary_end");
            match self.bin.take() {
                Some(t) => self.scalar("bytes", Some(LV::Bytes(t))),
                None => self.bad.push("end of binary without binary".into()),
            }
            Ok(())
        }
        fn map_begin(&mut self, _: Option<usize>) -> sval::Result {
            step!(self, "map_begin");
            self.open("map");
            self.in_enum.push(false);
            Ok(())
        }
        fn map_key_begin(&mut self) -> sval::Result {
            step!(self, "map_key_begin");
            self.push("key", None);
            Ok(())
        }
        fn map_key_end(&mut self) -> sval::Result {
            step!(self, "map_key_end");
            Ok(())
        }
        fn map_value_begin(&mut self) -> sval::Result {
            step!(self, "map_value_begin");
            self.push("val", None);
            Ok(())
        }
        fn map_value_end(&mut self) -> sval::Result {
            step!(self, "map_value_end");
            Ok(())
        }
        fn map_end(&mut self) -> sval::Result {
            step!(self, "map_end");
            self.in_enum.pop();
            self.close("map");
            Ok(())
        }
        fn seq_begin(&mut self, _: Option<usize>) -> sval::Result {
            step!(self, "seq_begin");
            self.in_enum.push(false);
            self.open("seq");
            Ok(())
        }
        fn seq_value_begin(&mut self) -> sval::Result {
            step!(self, "seq_value_begin");
            self.el(None);
            Ok(())
        }
        fn seq_value_end(&mut self) -> sval::Result {
            step!(self, "seq_value_end");
            Ok(())
        }
        fn seq_end(&mut self) -> sval::Result {
            step!(self, "seq_end");
            self.in_enum.pop();
            self.close("seq");
            Ok(())
        }
        fn enum_begin(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>) -> sval::Result {
            step!(self, "enum_begin");
            self.lab(l);
            self.in_enum.push(true);
            Ok(())
        }
        fn enum_end(&mut self, _: Option<&Tag>, l: Option<&Label>, _: Option<&Index>) -> sval::Result {
            step!(self, "enum_end");
            self.lab(l);
            if self.in_enum.pop() != Some(false) {
                self.bad.push("enum without a variant".into());
            }
            Ok(())
        }
        fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
            step!(self, "tagged_begin");
            if t == Some(&tags::RUST_OPTION_SOME) {
                self.push("some", None);
            } else if self.enumish() {
                self.var(l, i);
                self.push("nvar", None);
            } else {
                self.lab(l);
                self.push("newtype", None);
            }
            self.in_enum.push(false);
            Ok(())
        }
        fn tagged_end(&mut self, _: Option<&Tag>, _: Option<&Label>, _: Option<&Index>) -> sval::Result {
            step!(self, "tagged_end");
            self.in_enum.pop();
            Ok(())
        }
        fn tag(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
            step!(self, "tag");
            if t == Some(&tags::RUST_OPTION_NONE) {
                self.scalar("null", None);
            } else if t == Some(&tags::RUST_UNIT) {
                self.scalar("unit", None);
            } else if self.enumish() {
                self.var(l, i);
                self.scalar("uvar", None);
            } else {
                self.lab(l);
                self.scalar("ustruct", None);
            }
            Ok(())
        }
        fn tag_hint(&mut self, _: &Tag) -> sval::Result {
            Ok(())
        }
        fn record_begin(&mut self, _: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, _: Option<usize>) -> sval::Result {
            step!(self, "record_begin");
            if self.enumish() {
                self.var(l, i);
                self.open("svar");
            } else {
                self.lab(l);
                self.open("struct");
            }
            self.in_enum.push(false);
            Ok(())
        }
        fn record_value_begin(&mut self, _: Option<&Tag>, l: &Label) -> sval::Result {
            step!(self, "record_value_begin");
            let l = l.as_str().to_string();
            self.el(Some(&l));
            Ok(())
        }
        fn record_value_end(&mut self, _: Option<&Tag>, _: &Label) -> sval::Result {
            step!(self, "record_value_end");
            Ok(())
        }
        fn record_end(&mut self, _: Option<&Tag>, _: Option<&Label>, _: Option<&Index>) -> sval::Result {
            step!(self, "record_end");
            self.in_enum.pop();
            let t = self.stack.last().map(|s| s.0).unwrap_or("struct");
            self.close(if t == "svar" { "svar" } else { "struct" });
            Ok(())
        }
        fn tuple_begin(&mut self, _: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, _: Option<usize>) -> sval::Result {
            step!(self, "tuple_begin");
            if self.enumish() {
                self.var(l, i);
                self.open("tvar");
            } else if l.is_some() {
                self.lab(l);
                self.open("tstruct");
            } else {
                self.open("tuple");
            }
            self.in_enum.push(false);
            Ok(())
        }
        fn tuple_value_begin(&mut self, _: Option<&Tag>, i: &Index) -> sval::Result {
            step!(self, "tuple_value_begin");
            if i.to_u32() != self.stack.last().map(|s| s.1 as u32) {
                self.bad.push(format!("tuple index {:?}", i.to_u32()));
            }
            self.el(None);
            Ok(())
        }
        fn tuple_value_end(&mut self, _: Option<&Tag>, _: &Index) -> sval::Result {
            step!(self, "tuple_value_end");
            Ok(())
        }
        fn tuple_end(&mut self, _: Option<&Tag>, _: Option<&Label>, _: Option<&Index>) -> sval::Result {
            step!(self, "tuple_end");
            self.in_enum.pop();
            let t = self.stack.last().map(|s| s.0).unwrap_or("tuple");
            self.close(match t {
                "tvar" => "tvar",
                "tstruct" => "tstruct",
                _ => "tuple",
            });
            Ok(())
        }
    }
}

/// A text target that can refuse a write.
#[derive(Default)]
pub struct Sink {
    pub text: String,
    pub writes: usize,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub after_fail: bool,
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after_fail = true;
        }
        if self.fail_at == Some(self.writes) {
            self.failed = true;
        }
        self.writes += 1;
        if self.failed {
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
