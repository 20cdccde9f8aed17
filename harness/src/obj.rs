//! The objects captured by the replay: they do exactly what their term says.

use crate::lv::*;
use serde_json::Value as J;
use std::cell::Cell;
use std::fmt;
use std::sync::Arc;

thread_local! {
    /// Calls into the captured object's own code.
    pub static SRC_CALLS: Cell<u64> = const { Cell::new(0) };
    /// Runs of deferred suppliers.
    pub static RUNS: Cell<u64> = const { Cell::new(0) };
}

pub fn touch() {
    SRC_CALLS.with(|c| c.set(c.get() + 1));
}
pub fn ran() {
    RUNS.with(|c| c.set(c.get() + 1));
}

pub static FIELDS: [&str; 20] = [
    "f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17",
    "f18", "f19",
];

#[derive(Clone, Debug)]
pub enum Term {
    Int(&'static str, LV),
    F32(f32),
    F64(f64),
    Bool(bool),
    Char(char),
    Str(String),
    /// Text streamed in pieces by sval: "temp", "two", "mix" or "none" of them.
    Pieces(String, &'static str),
    Bytes(Vec<u8>),
    Null,
    Unit,
    UStruct,
    UVar,
    Wrap(&'static str, Box<Term>),
    List(&'static str, Vec<Term>),
    Map(Vec<(Term, Term)>),
    Fail,
    /// Presents the term and then fails.
    Late(Box<Term>),
    Bag(&'static str, Box<Obj<0>>),
}

pub fn int_ty(s: &str) -> &'static str {
    for t in ["u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128"] {
        if t == s {
            return t;
        }
    }
    panic!("unknown integer type {s}")
}

fn stat(s: &str, of: &[&'static str]) -> Option<&'static str> {
    of.iter().copied().find(|x| *x == s)
}

pub const WRAPS: [&str; 3] = ["some", "newtype", "nvar"];
pub const LISTS: [&str; 6] = ["seq", "tuple", "tstruct", "tvar", "struct", "svar"];

impl Term {
    pub fn make(t: &J, mode: u32, rng: &mut Rng) -> Term {
        let k = t["k"].as_str().unwrap();
        if let Some(w) = stat(k, &WRAPS) {
            return Term::Wrap(w, Box::new(Term::make(&t["x"], mode, rng)));
        }
        if let Some(l) = stat(k, &LISTS) {
            return Term::List(l, t["xs"].as_array().unwrap().iter().map(|x| Term::make(x, mode, rng)).collect());
        }
        // a value that the specification names
        let named = t["c"].as_str().map(|c| class_of(k, c));
        match (named, t["p"].as_str()) {
            (Some(LV::F32(v)), _) => return Term::F32(v),
            (Some(LV::F(v)), _) => return Term::F64(v),
            (Some(LV::Bool(v)), _) => return Term::Bool(v),
            (Some(LV::Char(v)), _) => return Term::Char(v),
            (Some(LV::Str(v)), None) => return Term::Str(v),
            (Some(LV::Str(v)), Some(_)) => return Term::Pieces(v, "temp"),
            _ => (),
        }
        match k {
            "int" => {
                let ty = int_ty(t["ty"].as_str().unwrap());
                Term::Int(ty, int_of(ty.starts_with('i'), t["r"].as_i64().unwrap(), mode, rng))
            }
            "f32" => Term::F32(f32_of(mode, rng)),
            "f64" => Term::F64(f64_of(mode, rng)),
            "bool" => Term::Bool(rng.below(2) == 1),
            "char" => Term::Char(char_of(mode, rng)),
            "str" => {
                let text = text_of(t["l"].as_i64().unwrap(), mode, rng);
                match t["p"].as_str() {
                    None => Term::Str(text),
                    Some("none") => Term::Pieces(String::new(), "none"),
                    Some(p) => {
                        // Two pieces that both hold something
                        let text = if text.chars().count() < 2 { text + "é-" } else { text };
                        Term::Pieces(text, stat(p, &["temp", "two", "mix"]).unwrap())
                    }
                }
            }
            "bytes" => Term::Bytes((0..rng.below(40)).map(|_| rng.next() as u8).collect()),
            "null" => Term::Null,
            "unit" => Term::Unit,
            "ustruct" => Term::UStruct,
            "uvar" => Term::UVar,
            "fail" => Term::Fail,
            "late" => Term::Late(Box::new(Term::make(&t["x"], mode, rng))),
            "map" => Term::Map(
                t["kvs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|kv| (Term::make(&kv[0], mode, rng), Term::make(&kv[1], mode, rng)))
                    .collect(),
            ),
            "bag" => {
                let v = stat(t["v"].as_str().unwrap(), &["sval", "serde", "prim", "debug", "display"]).unwrap();
                Term::Bag(v, Box::new(Obj::make(&t["x"], mode, rng)))
            }
            _ => panic!("unknown term {k}"),
        }
    }

    /// Data carried by the output tokens, in order.
    pub fn leaves(&self, out: &mut Vec<LV>) {
        match self {
            Term::Int(_, v) => out.push(v.clone()),
            Term::F32(v) => out.push(LV::F32(*v)),
            Term::F64(v) => out.push(LV::F(*v)),
            Term::Bool(v) => out.push(LV::Bool(*v)),
            Term::Char(v) => out.push(LV::Char(*v)),
            Term::Str(v) | Term::Pieces(v, _) => out.push(LV::Str(v.clone())),
            Term::Bytes(v) => out.push(LV::Bytes(v.clone())),
            Term::Wrap(_, x) | Term::Late(x) => x.leaves(out),
            Term::List(_, xs) => xs.iter().for_each(|x| x.leaves(out)),
            Term::Map(kvs) => kvs.iter().for_each(|(k, v)| {
                k.leaves(out);
                v.leaves(out);
            }),
            Term::Bag(v, o) => match *v {
                "debug" => out.push(LV::Str(format!("{:?}", o))),
                "display" => out.push(LV::Str(format!("{}", o))),
                _ => o.term.leaves(out),
            },
            Term::Null | Term::Unit | Term::UStruct | Term::UVar | Term::Fail => (),
        }
    }

    /// The single datum of a leaf, looking through wrappers.
    pub fn leaf(&self) -> Option<LV> {
        match self {
            Term::Wrap(_, x) | Term::Late(x) => x.leaf(),
            Term::List(..) | Term::Map(_) => None,
            Term::Bag("sval" | "serde" | "prim", o) => o.term.leaf(),
            t => {
                let mut v = vec![];
                t.leaves(&mut v);
                v.pop()
            }
        }
    }

    /// Address and length of a text leaf, looking through wrappers.
    pub fn text_at(&self) -> Option<(usize, usize)> {
        match self {
            Term::Wrap(_, x) => x.text_at(),
            Term::Str(s) | Term::Pieces(s, _) => Some((s.as_ptr() as usize, s.len())),
            _ => None,
        }
    }

    /// All texts inside, by address.
    pub fn texts(&self, out: &mut Vec<(usize, usize)>) {
        match self {
            Term::Wrap(_, x) | Term::Late(x) => x.texts(out),
            Term::Str(s) | Term::Pieces(s, _) => out.push((s.as_ptr() as usize, s.len())),
            Term::List(_, xs) => xs.iter().for_each(|x| x.texts(out)),
            Term::Map(kvs) => kvs.iter().for_each(|(k, v)| {
                k.texts(out);
                v.texts(out);
            }),
            Term::Bag(_, o) => o.term.texts(out),
            _ => (),
        }
    }

    /// Elements when seen as a sequence, looking through wrappers.
    pub fn elements(&self) -> Vec<&Term> {
        match self {
            Term::Wrap(_, x) => x.elements(),
            Term::List(_, xs) => xs.iter().collect(),
            Term::Bag("sval" | "serde", o) => o.term.elements(),
            _ => vec![],
        }
    }
}

/// A structured object. Two instances of the const give two distinct types.
#[derive(Clone)]
pub struct Obj<const K: u8> {
    pub uid: u64,
    pub style: u8,
    pub term: Term,
}

impl<const K: u8> Obj<K> {
    pub fn make(t: &J, mode: u32, rng: &mut Rng) -> Self {
        Obj { uid: rng.below(100000), style: rng.below(4) as u8, term: Term::make(t, mode, rng) }
    }
}

/// Show every formatting flag the formatter carries.
fn flags(f: &mut fmt::Formatter) -> fmt::Result {
    if f.alternate() {
        f.write_str("#")?;
    }
    if f.sign_plus() {
        f.write_str("+")?;
    }
    if f.sign_minus() {
        f.write_str("-")?;
    }
    if f.sign_aware_zero_pad() {
        f.write_str("0")?;
    }
    if let Some(w) = f.width() {
        write!(f, " w{w}{:?}", f.fill())?;
    }
    match f.align() {
        Some(fmt::Alignment::Left) => f.write_str("<")?,
        Some(fmt::Alignment::Right) => f.write_str(">")?,
        Some(fmt::Alignment::Center) => f.write_str("^")?,
        None => (),
    }
    if let Some(p) = f.precision() {
        write!(f, " p{p}")?;
    }
    Ok(())
}

impl<const K: u8> fmt::Debug for Obj<K> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        touch();
        write!(f, "Obj{}#{}", K, self.uid)?;
        flags(f)
    }
}

impl<const K: u8> fmt::Display for Obj<K> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        touch();
        f.write_str("obj ")?;
        write!(f, "{}", self.uid)?;
        flags(f)
    }
}

/// Text written out in pieces by formatting code.
#[derive(Clone)]
pub struct Txt {
    pub dbg: String,
    pub dsp: String,
    pub fail: bool,
    pub style: u64,
}

impl Txt {
    pub fn make(t: &J, mode: u32, rng: &mut Rng) -> Txt {
        let fail = t["k"] == "fail";
        let l = t["l"].as_i64().unwrap_or(0);
        let dsp = text_of(l, mode, rng);
        let dbg = text_exact(dsp.len(), rng);
        Txt { dbg, dsp, fail, style: rng.next() }
    }

    fn write(&self, s: &str, f: &mut fmt::Formatter) -> fmt::Result {
        touch();
        let mut r = Rng(self.style);
        let mut rest = s;
        if self.style % 5 == 0 {
            f.write_str(s)?;
            rest = "";
        }
        while !rest.is_empty() {
            match r.below(4) {
                0 => f.write_str("")?,
                1 => {
                    let c = rest.chars().next().unwrap();
                    fmt::Write::write_char(f, c)?;
                    rest = &rest[c.len_utf8()..];
                }
                k => {
                    let mut n = (1 + r.below(30) as usize).min(rest.len());
                    while !rest.is_char_boundary(n) {
                        n += 1;
                    }
                    let (a, b) = rest.split_at(n);
                    if k == 2 {
                        f.write_str(a)?;
                    } else {
                        f.write_fmt(format_args!("{}{}", a, ""))?;
                    }
                    rest = b;
                }
            }
        }
        flags(f)?;
        if self.fail {
            Err(fmt::Error)
        } else {
            Ok(())
        }
    }
}

impl fmt::Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write(&self.dbg, f)
    }
}

impl fmt::Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write(&self.dsp, f)
    }
}

/// An error with a chain of causes.
#[derive(Clone)]
pub struct ErrObj {
    pub msg: String,
    pub code: u64,
    pub fail: bool,
    pub cause: Option<Arc<ErrObj>>,
}

impl ErrObj {
    /// A chain of n + 1 errors; the message of number `fail` cannot be formatted.
    pub fn make(n: u64, fail: Option<u64>, mode: u32, rng: &mut Rng) -> ErrObj {
        let l = if mode == 0 { 0 } else { rng.below(4) as i64 };
        ErrObj {
            msg: text_of(l, mode, rng),
            code: rng.below(1000),
            fail: fail == Some(0),
            cause: if n == 0 {
                None
            } else {
                Some(Arc::new(ErrObj::make(n - 1, fail.and_then(|f| f.checked_sub(1)), mode, rng)))
            },
        }
    }
}

impl fmt::Debug for ErrObj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        touch();
        write!(f, "ErrObj#{}", self.code)?;
        flags(f)
    }
}

impl fmt::Display for ErrObj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        touch();
        f.write_str(&self.msg)?;
        if self.fail {
            return Err(fmt::Error);
        }
        flags(f)
    }
}

impl std::error::Error for ErrObj {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        touch();
        self.cause.as_ref().map(|c| &**c as &(dyn std::error::Error + 'static))
    }
}

/// The messages of an error and its causes; None where one cannot be formatted.
pub fn chain(e: &(dyn std::error::Error + 'static)) -> Vec<Option<String>> {
    fn msg(e: &dyn std::error::Error) -> Option<String> {
        let mut t = String::new();
        fmt::Write::write_fmt(&mut t, format_args!("{e}")).ok().map(|_| t)
    }
    let mut out = vec![msg(e)];
    let mut at = e.source();
    while let Some(e) = at {
        out.push(msg(e));
        at = e.source();
        if out.len() > 20 {
            break;
        }
    }
    out
}

/// A chain seen through a bag; a buffered error explains a failed message in some words.
pub fn same_chain(own: &[Option<String>], got: &[Option<String>], buffered: bool) -> bool {
    own.len() == got.len()
        && own.iter().zip(got).all(|(a, b)| match (a, b) {
            (None, Some(t)) => buffered && !t.is_empty(),
            (a, b) => a == b && !(buffered && b.is_none()),
        })
}

/// Types that look like primitives but are not.
#[derive(Clone)]
pub struct WrapU64(pub u64);
impl fmt::Debug for WrapU64 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        touch();
        fmt::Debug::fmt(&self.0, f)
    }
}
#[derive(Clone)]
pub struct WrapStr(pub String);
impl fmt::Debug for WrapStr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        touch();
        fmt::Debug::fmt(&self.0, f)
    }
}

impl serde::Serialize for Term {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        touch();
        match self {
            Term::Int(ty, v) => {
                let (u, i) = match v {
                    LV::U(u) => (*u, *u as i128),
                    LV::I(i) => (*i as u128, *i),
                    _ => unreachable!(),
                };
                match *ty {
                    "u8" => s.serialize_u8(u as u8),
                    "u16" => s.serialize_u16(u as u16),
                    "u32" => s.serialize_u32(u as u32),
                    "u64" | "usize" => s.serialize_u64(u as u64),
                    "u128" => s.serialize_u128(u),
                    "i8" => s.serialize_i8(i as i8),
                    "i16" => s.serialize_i16(i as i16),
                    "i32" => s.serialize_i32(i as i32),
                    "i64" | "isize" => s.serialize_i64(i as i64),
                    _ => s.serialize_i128(i),
                }
            }
            Term::F32(v) => s.serialize_f32(*v),
            Term::F64(v) => s.serialize_f64(*v),
            Term::Bool(v) => s.serialize_bool(*v),
            Term::Char(v) => s.serialize_char(*v),
            Term::Str(v) | Term::Pieces(v, _) => s.serialize_str(v),
            Term::Bytes(v) => s.serialize_bytes(v),
            Term::Null => s.serialize_none(),
            Term::Unit => s.serialize_unit(),
            Term::UStruct => s.serialize_unit_struct("N"),
            Term::UVar => s.serialize_unit_variant("N", 1, "V"),
            Term::Wrap("some", x) => s.serialize_some(&**x),
            Term::Wrap("newtype", x) => s.serialize_newtype_struct("N", &**x),
            Term::Wrap(_, x) => s.serialize_newtype_variant("N", 1, "V", &**x),
            Term::List(k, xs) => match *k {
                "seq" => {
                    let mut q = s.serialize_seq(if xs.len() % 2 == 0 { Some(xs.len()) } else { None })?;
                    for x in xs {
                        q.serialize_element(x)?;
                    }
                    q.end()
                }
                "tuple" => {
                    let mut q = s.serialize_tuple(xs.len())?;
                    for x in xs {
                        q.serialize_element(x)?;
                    }
                    q.end()
                }
                "tstruct" => {
                    let mut q = s.serialize_tuple_struct("N", xs.len())?;
                    for x in xs {
                        q.serialize_field(x)?;
                    }
                    q.end()
                }
                "tvar" => {
                    let mut q = s.serialize_tuple_variant("N", 1, "V", xs.len())?;
                    for x in xs {
                        q.serialize_field(x)?;
                    }
                    q.end()
                }
                "struct" => {
                    let mut q = s.serialize_struct("N", xs.len())?;
                    for (i, x) in xs.iter().enumerate() {
                        q.serialize_field(FIELDS[i], x)?;
                    }
                    q.end()
                }
                _ => {
                    let mut q = s.serialize_struct_variant("N", 1, "V", xs.len())?;
                    for (i, x) in xs.iter().enumerate() {
                        q.serialize_field(FIELDS[i], x)?;
                    }
                    q.end()
                }
            },
            Term::Map(kvs) => {
                let mut q = s.serialize_map(if kvs.len() % 2 == 0 { Some(kvs.len()) } else { None })?;
                for (i, (k, v)) in kvs.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_key(k)?;
                        q.serialize_value(v)?;
                    } else {
                        q.serialize_entry(k, v)?;
                    }
                }
                q.end()
            }
            Term::Fail => Err(S::Error::custom("told to fail")),
            Term::Late(x) => {
                x.serialize(s)?;
                Err(S::Error::custom("told to fail"))
            }
            #[cfg(feature = "serde")]
            Term::Bag(v, o) => crate::cap::bag_in(v, o).serialize(s),
            #[cfg(not(feature = "serde"))]
            Term::Bag(_, _) => Err(S::Error::custom("not available")),
        }
    }
}

impl<const K: u8> serde::Serialize for Obj<K> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.term.serialize(s)
    }
}

#[cfg(feature = "sval")]
mod sv {
    use super::*;
    use sval::{Index, Label, Stream};

    impl sval::Value for Term {
        fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, st: &mut S) -> sval::Result {
            touch();
            let n = Label::new("N");
            let v = Label::new("V");
            let ix = Index::new(1);
            match self {
                Term::Int(ty, x) => {
                    let (u, i) = match x {
                        LV::U(u) => (*u, *u as i128),
                        LV::I(i) => (*i as u128, *i),
                        _ => unreachable!(),
                    };
                    match *ty {
                        "u8" => st.u8(u as u8),
                        "u16" => st.u16(u as u16),
                        "u32" => st.u32(u as u32),
                        "u64" | "usize" => st.u64(u as u64),
                        "u128" => st.u128(u),
                        "i8" => st.i8(i as i8),
                        "i16" => st.i16(i as i16),
                        "i32" => st.i32(i as i32),
                        "i64" | "isize" => st.i64(i as i64),
                        _ => st.i128(i),
                    }
                }
                Term::F32(x) => st.f32(*x),
                Term::F64(x) => st.f64(*x),
                Term::Bool(x) => st.bool(*x),
                Term::Char(x) => st.value(x),
                Term::Str(x) => st.value(&**x),
                Term::Pieces(x, p) => {
                    let half = x.chars().count() / 2;
                    let at = x.char_indices().nth(half).map_or(0, |(i, _)| i);
                    let (a, b) = x.split_at(at);
                    st.text_begin(if *p == "mix" { None } else { Some(x.len()) })?;
                    match *p {
                        "temp" => st.text_fragment_computed(x)?,
                        "two" => {
                            st.text_fragment(a)?;
                            st.text_fragment(b)?;
                        }
                        "mix" => {
                            st.text_fragment(a)?;
                            st.text_fragment_computed(&b.to_string())?;
                        }
                        _ => (),
                    }
                    st.text_end()
                }
                Term::Bytes(x) => {
                    st.binary_begin(Some(x.len()))?;
                    st.binary_fragment(x)?;
                    st.binary_end()
                }
                Term::Null => st.value(&None::<u8>),
                Term::Unit => st.value(&()),
                Term::UStruct => st.tag(None, Some(&n), None),
                Term::UVar => {
                    st.enum_begin(None, Some(&n), None)?;
                    st.tag(None, Some(&v), Some(&ix))?;
                    st.enum_end(None, Some(&n), None)
                }
                Term::Wrap("some", x) => {
                    st.tagged_begin(Some(&sval::tags::RUST_OPTION_SOME), Some(&Label::new("Some")), Some(&Index::new(1)))?;
                    st.value(&**x)?;
                    st.tagged_end(Some(&sval::tags::RUST_OPTION_SOME), Some(&Label::new("Some")), Some(&Index::new(1)))
                }
                Term::Wrap("newtype", x) => {
                    st.tagged_begin(None, Some(&n), None)?;
                    st.value(&**x)?;
                    st.tagged_end(None, Some(&n), None)
                }
                Term::Wrap(_, x) => {
                    st.enum_begin(None, Some(&n), None)?;
                    st.tagged_begin(None, Some(&v), Some(&ix))?;
                    st.value(&**x)?;
                    st.tagged_end(None, Some(&v), Some(&ix))?;
                    st.enum_end(None, Some(&n), None)
                }
                Term::List(k, xs) => {
                    let var = *k == "tvar" || *k == "svar";
                    let len = Some(xs.len());
                    if var {
                        st.enum_begin(None, Some(&n), None)?;
                    }
                    let (label, index) = if var { (Some(&v), Some(&ix)) } else if *k == "tuple" { (None, None) } else { (Some(&n), None) };
                    match *k {
                        "seq" => {
                            st.seq_begin(if xs.len() % 2 == 0 { len } else { None })?;
                            for x in xs {
                                st.seq_value_begin()?;
                                st.value(x)?;
                                st.seq_value_end()?;
                            }
                            st.seq_end()?;
                        }
                        "struct" | "svar" => {
                            st.record_begin(None, label, index, len)?;
                            for (i, x) in xs.iter().enumerate() {
                                let l = Label::new(FIELDS[i]);
                                st.record_value_begin(None, &l)?;
                                st.value(x)?;
                                st.record_value_end(None, &l)?;
                            }
                            st.record_end(None, label, index)?;
                        }
                        _ => {
                            st.tuple_begin(None, label, index, len)?;
                            for (i, x) in xs.iter().enumerate() {
                                let l = Index::new(i);
                                st.tuple_value_begin(None, &l)?;
                                st.value(x)?;
                                st.tuple_value_end(None, &l)?;
                            }
                            st.tuple_end(None, label, index)?;
                        }
                    }
                    if var {
                        st.enum_end(None, Some(&n), None)?;
                    }
                    Ok(())
                }
                Term::Map(kvs) => {
                    st.map_begin(if kvs.len() % 2 == 0 { Some(kvs.len()) } else { None })?;
                    for (k, v) in kvs {
                        st.map_key_begin()?;
                        st.value(k)?;
                        st.map_key_end()?;
                        st.map_value_begin()?;
                        st.value(v)?;
                        st.map_value_end()?;
                    }
                    st.map_end()
                }
                Term::Fail => sval::error(),
                Term::Late(x) => {
                    st.value(&**x)?;
                    sval::error()
                }
                Term::Bag(v, o) => {
                    use sval_ref::ValueRef;
                    let bag = crate::cap::bag_in(v, o);
                    if o.style % 2 == 0 {
                        bag.stream_ref(st)
                    } else {
                        st.value_computed(&bag)
                    }
                }
            }
        }
    }

    impl<const K: u8> sval::Value for Obj<K> {
        fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, st: &mut S) -> sval::Result {
            st.value(&self.term)
        }
    }
}
