//! Capturing: every public route from a source to a bag.

use crate::lv::*;
use crate::obj::*;
use serde_json::Value as J;
use std::any::{Any, TypeId};
use std::borrow::Cow;
use std::fmt;
use std::sync::Arc;
use value_bag::{fill::Slot, Error, ValueBag};

/// The sval routes of a type; not every std type can be streamed.
pub trait MaybeSval: Sized {
    fn cap_sval<'v>(_: &'v Self, _: &str) -> Bag<'v> {
        None
    }
    fn sv_fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Err(fmt::Error)
    }
}
impl MaybeSval for usize {}
impl MaybeSval for isize {}
impl MaybeSval for Option<usize> {}
impl MaybeSval for Option<isize> {}
impl MaybeSval for Cow<'static, str> {}

macro_rules! streamed {
    ($($t:ty),*) => {$(
        impl MaybeSval for $t {
            #[cfg(feature = "sval")]
            fn cap_sval<'v>(v: &'v Self, route: &str) -> Bag<'v> {
                cap_sval(v, route)
            }
            #[cfg(feature = "sval")]
            fn sv_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                sval_fmt::stream_to_fmt(f, self)
            }
        }
    )*};
    (both $($t:ty),*) => { streamed!($($t, Option<$t>),*); };
}
streamed!(both u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, char, &'static str, String);
streamed!((), Obj<0>);

/// References that have to outlive the bag are leaked; they are small.
fn leak<'v, T: 'v>(x: T) -> &'v T {
    Box::leak(Box::new(x))
}

/// A deferred bag that runs `f`.
fn deferred<'v, F>(f: F) -> ValueBag<'v>
where
    F: Fn(Slot) -> Result<(), Error> + 'v,
{
    fn at<F: Fn(Slot) -> Result<(), Error>>(f: F) -> impl Fn(Slot) -> Result<(), Error> {
        move |slot: Slot| {
            ran();
            f(slot)
        }
    }
    ValueBag::from_fill(leak(at(f)))
}

/// A deferred bag that hands out `b` each time.
#[cfg(feature = "owned")]
fn deferred_bag<'v>(b: ValueBag<'static>) -> ValueBag<'v> {
    deferred(move |s| s.fill_any(b.clone()))
}

pub type Bag<'v> = Option<ValueBag<'v>>;

fn cap_debug<'v, T: fmt::Debug + Clone + Send + Sync + 'static>(v: &'v T, route: &str) -> Bag<'v> {
    Some(match route {
        "capture_debug" => ValueBag::capture_debug(v),
        "try_capture" => return ValueBag::try_capture(v),
        "from_debug" => ValueBag::from_debug(v),
        "from_dyn_debug" => ValueBag::from_dyn_debug(v),
        "into_dyn_debug" => ValueBag::from(v as &dyn fmt::Debug),
        "into_ref_dyn_debug" => ValueBag::from(leak(v as &'v dyn fmt::Debug)),
        "into_opt_dyn_debug" => ValueBag::from(Some(v as &dyn fmt::Debug)),
        "fill_debug" => deferred(move |s| s.fill_debug(v)),
        #[cfg(feature = "owned")]
        "shared_debug" => ValueBag::capture_shared_debug(v.clone()),
        #[cfg(feature = "owned")]
        "try_capture_owned" => return ValueBag::try_capture_owned(v),
        #[cfg(feature = "owned")]
        "fill_shared_debug" => deferred_bag(ValueBag::capture_shared_debug(v.clone())),
        _ => return None,
    })
}

fn cap_display<'v, T: fmt::Display + Clone + Send + Sync + 'static>(v: &'v T, route: &str) -> Bag<'v> {
    Some(match route {
        "capture_display" => ValueBag::capture_display(v),
        "from_display" => ValueBag::from_display(v),
        "from_dyn_display" => ValueBag::from_dyn_display(v),
        "into_dyn_display" => ValueBag::from(v as &dyn fmt::Display),
        "into_ref_dyn_display" => ValueBag::from(leak(v as &'v dyn fmt::Display)),
        "into_opt_dyn_display" => ValueBag::from(Some(v as &dyn fmt::Display)),
        "fill_display" => deferred(move |s| s.fill_display(v)),
        #[cfg(feature = "owned")]
        "shared_display" => ValueBag::capture_shared_display(v.clone()),
        #[cfg(feature = "owned")]
        "fill_shared_display" => deferred_bag(ValueBag::capture_shared_display(v.clone())),
        _ => return None,
    })
}

#[cfg(feature = "sval")]
fn cap_sval<'v, T: sval::Value + Clone + Send + Sync + 'static>(v: &'v T, route: &str) -> Bag<'v> {
    use sval_dynamic::Value as Dyn;
    Some(match route {
        "capture_sval2" => ValueBag::capture_sval2(v),
        "from_sval2" => ValueBag::from_sval2(v),
        "from_dyn_sval2" => ValueBag::from_dyn_sval2(v),
        "into_dyn_sval2" => ValueBag::from(v as &dyn Dyn),
        "into_ref_dyn_sval2" => ValueBag::from(leak(v as &'v dyn Dyn)),
        "into_opt_dyn_sval2" => ValueBag::from(Some(v as &dyn Dyn)),
        "fill_sval2" => deferred(move |s| s.fill_sval2(v)),
        #[cfg(feature = "owned")]
        "shared_sval2" => ValueBag::capture_shared_sval2(v.clone()),
        #[cfg(feature = "owned")]
        "fill_shared_sval2" => deferred_bag(ValueBag::capture_shared_sval2(v.clone())),
        _ => return None,
    })
}

#[allow(unused_variables)]
fn cap_struct<'v, T: MaybeSval + serde::Serialize + Clone + Send + Sync + 'static>(v: &'v T, route: &str) -> Bag<'v> {
    Some(match route {
        #[cfg(feature = "serde")]
        "capture_serde1" => ValueBag::capture_serde1(v),
        #[cfg(feature = "serde")]
        "from_serde1" => ValueBag::from_serde1(v),
        #[cfg(feature = "serde")]
        "fill_serde1" => deferred(move |s| s.fill_serde1(v)),
        #[cfg(all(feature = "serde", feature = "owned"))]
        "shared_serde1" => ValueBag::capture_shared_serde1(v.clone()),
        #[cfg(all(feature = "serde", feature = "owned"))]
        "fill_shared_serde1" => deferred_bag(ValueBag::capture_shared_serde1(v.clone())),
        _ => return T::cap_sval(v, route),
    })
}

/// A bag nested inside a structured value.
#[allow(dead_code)]
pub fn bag_in<'v>(v: &str, o: &'v Obj<0>) -> ValueBag<'v> {
    match v {
        #[cfg(feature = "sval")]
        "sval" => ValueBag::from_sval2(o),
        #[cfg(feature = "serde")]
        "serde" => ValueBag::from_serde1(o),
        "debug" => ValueBag::from_debug(o),
        "display" => ValueBag::capture_display(o),
        "prim" => match &o.term {
            Term::Int(ty, x) => match (*ty, x) {
                ("u8", LV::U(u)) => ValueBag::from_u8(*u as u8),
                ("u16", LV::U(u)) => ValueBag::from_u16(*u as u16),
                ("u32", LV::U(u)) => ValueBag::from_u32(*u as u32),
                ("u64" | "usize", LV::U(u)) => ValueBag::from_u64(*u as u64),
                ("u128", LV::U(u)) => ValueBag::from_u128_ref(u),
                ("i8", LV::I(u)) => ValueBag::from_i8(*u as i8),
                ("i16", LV::I(u)) => ValueBag::from_i16(*u as i16),
                ("i32", LV::I(u)) => ValueBag::from_i32(*u as i32),
                ("i64" | "isize", LV::I(u)) => ValueBag::from_i64(*u as i64),
                ("i128", LV::I(u)) => ValueBag::from_i128_ref(u),
                _ => unreachable!(),
            },
            Term::F32(x) => ValueBag::from_f32(*x),
            Term::F64(x) => ValueBag::from_f64(*x),
            Term::Bool(x) => ValueBag::from_bool(*x),
            Term::Char(x) => ValueBag::from_char(*x),
            Term::Str(x) => ValueBag::from_str(x),
            _ => ValueBag::empty(),
        },
        _ => panic!("unknown nested capture {v}"),
    }
}

/// What a captured value is, for comparison.
pub trait Subject: Send + Sync {
    fn capture<'v>(&'v self, route: &str) -> Bag<'v>;
    fn debug(&self) -> &dyn fmt::Debug;
    fn display(&self) -> Option<&dyn fmt::Display> {
        None
    }
    fn fmt_sval(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Err(fmt::Error)
    }
    fn fmt_serde(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Err(fmt::Error)
    }
    fn error(&self) -> Option<&(dyn std::error::Error + 'static)> {
        None
    }
    fn at(&self) -> usize;
    fn tid(&self) -> TypeId;
    /// (address, own debug text) of the downcast object, and the answer of `is`.
    fn down(&self, bag: &ValueBag) -> (Option<(usize, String)>, bool);
    fn term(&self) -> Option<&Term> {
        None
    }
}

fn down_to<T: Any + fmt::Debug>(bag: &ValueBag) -> (Option<(usize, String)>, bool) {
    (bag.downcast_ref::<T>().map(|v| (v as *const T as usize, format!("{v:?}"))), bag.is::<T>())
}

#[cfg(feature = "serde")]
fn se_fmt<T: serde::Serialize>(v: &T, f: &mut fmt::Formatter) -> fmt::Result {
    fmt::Debug::fmt(&serde_fmt::to_debug(v), f)
}
#[cfg(not(feature = "serde"))]
fn se_fmt<T>(_: &T, _: &mut fmt::Formatter) -> fmt::Result {
    Err(fmt::Error)
}

/// The direct conversions of a primitive type.
pub trait Prim: fmt::Debug + MaybeSval + serde::Serialize + Clone + Send + Sync + Sized + 'static {
    fn direct<'v>(v: &'v Self, route: &str) -> Bag<'v>;
    fn direct_opt<'v>(v: &'v Option<Self>, route: &str) -> Bag<'v>;
}

macro_rules! prim {
    ($($t:ty: $ctor:ident,)*) => {$(
        impl Prim for $t {
            fn direct<'v>(v: &'v Self, route: &str) -> Bag<'v> {
                let x = *v;
                Some(match route {
                    "into_val" => ValueBag::from(x),
                    "option_val" => ValueBag::from_option(Some(x)),
                    "into_ref" => ValueBag::from(v),
                    "option_ref" => ValueBag::from_option(Some(v)),
                    "ctor" => ValueBag::$ctor(x),
                    "fill_any" => deferred(move |s| s.fill_any(x)),
                    _ => return None,
                })
            }
            fn direct_opt<'v>(v: &'v Option<Self>, route: &str) -> Bag<'v> {
                let x = *v;
                Some(match route {
                    "into_val" => ValueBag::from(x),
                    "option_val" => ValueBag::from_option(x),
                    "option_ref" => ValueBag::from_option(v.as_ref()),
                    "fill_any" => deferred(move |s| s.fill_any(x)),
                    _ => return None,
                })
            }
        }
    )*};
}
prim!(
    u8: from_u8, u16: from_u16, u32: from_u32, u64: from_u64, usize: from_usize,
    i8: from_i8, i16: from_i16, i32: from_i32, i64: from_i64, isize: from_isize,
    f32: from_f32, f64: from_f64, bool: from_bool, char: from_char, &'static str: from_str,
);

macro_rules! wide {
    ($($t:ty: $ctor:ident, $ctor_ref:ident,)*) => {$(
        impl Prim for $t {
            fn direct<'v>(v: &'v Self, route: &str) -> Bag<'v> {
                Some(match route {
                    "into_ref" => ValueBag::from(v),
                    "option_ref" => ValueBag::from_option(Some(v)),
                    "ctor" => ValueBag::$ctor_ref(v),
                    #[cfg(feature = "i128")]
                    "ctor_val" => ValueBag::$ctor(*v),
                    #[cfg(feature = "i128")]
                    "into_val" => ValueBag::from(*v),
                    #[cfg(feature = "i128")]
                    "option_val" => ValueBag::from_option(Some(*v)),
                    #[cfg(feature = "i128")]
                    "fill_any" => { let x = *v; deferred(move |s| s.fill_any(x)) }
                    _ => return None,
                })
            }
            fn direct_opt<'v>(v: &'v Option<Self>, route: &str) -> Bag<'v> {
                Some(match route {
                    #[cfg(feature = "i128")]
                    "option_val" => ValueBag::from_option(*v),
                    "option_ref" => ValueBag::from_option(v.as_ref()),
                    _ => return None,
                })
            }
        }
    )*};
}
wide!(u128: from_u128, from_u128_ref, i128: from_i128, from_i128_ref,);

impl Prim for String {
    fn direct<'v>(v: &'v Self, route: &str) -> Bag<'v> {
        Some(match route {
            #[cfg(feature = "alloc")]
            "into_ref" => ValueBag::from(v),
            #[cfg(feature = "alloc")]
            "option_ref" => ValueBag::from_option(Some(v)),
            "ctor" => ValueBag::from_str(v),
            "into_str" => ValueBag::from(&**v),
            "try_capture_str" => return ValueBag::try_capture::<str>(v),
            _ => return None,
        })
    }
    fn direct_opt<'v>(_v: &'v Option<Self>, route: &str) -> Bag<'v> {
        Some(match route {
            #[cfg(feature = "alloc")]
            "option_ref" => ValueBag::from_option(_v.as_ref()),
            _ => return None,
        })
    }
}

/// A primitive, or another type with `Display` and both frameworks.
pub struct Full<T>(pub T, pub for<'v> fn(&'v T, &str) -> Bag<'v>);

impl<T> Subject for Full<T>
where
    T: fmt::Debug + fmt::Display + MaybeSval + serde::Serialize + Clone + Send + Sync + 'static,
{
    fn capture<'v>(&'v self, route: &str) -> Bag<'v> {
        (self.1)(&self.0, route)
            .or_else(|| cap_debug(&self.0, route))
            .or_else(|| cap_display(&self.0, route))
            .or_else(|| cap_struct(&self.0, route))
    }
    fn debug(&self) -> &dyn fmt::Debug {
        &self.0
    }
    fn display(&self) -> Option<&dyn fmt::Display> {
        Some(&self.0)
    }
    fn fmt_sval(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.sv_fmt(f)
    }
    fn fmt_serde(&self, f: &mut fmt::Formatter) -> fmt::Result {
        se_fmt(&self.0, f)
    }
    fn at(&self) -> usize {
        &self.0 as *const T as usize
    }
    fn tid(&self) -> TypeId {
        TypeId::of::<T>()
    }
    fn down(&self, bag: &ValueBag) -> (Option<(usize, String)>, bool) {
        down_to::<T>(bag)
    }
    fn term(&self) -> Option<&Term> {
        (&self.0 as &dyn Any).downcast_ref::<Obj<0>>().map(|o| &o.term)
    }
}

/// A type without `Display`: optionals and unit.
pub struct NoDisp<T>(pub T, pub for<'v> fn(&'v T, &str) -> Bag<'v>);

impl<T> Subject for NoDisp<T>
where
    T: fmt::Debug + MaybeSval + serde::Serialize + Clone + Send + Sync + 'static,
{
    fn capture<'v>(&'v self, route: &str) -> Bag<'v> {
        (self.1)(&self.0, route).or_else(|| cap_debug(&self.0, route)).or_else(|| cap_struct(&self.0, route))
    }
    fn debug(&self) -> &dyn fmt::Debug {
        &self.0
    }
    fn fmt_sval(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.sv_fmt(f)
    }
    fn fmt_serde(&self, f: &mut fmt::Formatter) -> fmt::Result {
        se_fmt(&self.0, f)
    }
    fn at(&self) -> usize {
        &self.0 as *const T as usize
    }
    fn tid(&self) -> TypeId {
        TypeId::of::<T>()
    }
    fn down(&self, bag: &ValueBag) -> (Option<(usize, String)>, bool) {
        down_to::<T>(bag)
    }
}

/// A type with `Debug` only.
pub struct DebugOnly<T>(pub T);

impl<T: fmt::Debug + Clone + Send + Sync + 'static> Subject for DebugOnly<T> {
    fn capture<'v>(&'v self, route: &str) -> Bag<'v> {
        cap_debug(&self.0, route)
    }
    fn debug(&self) -> &dyn fmt::Debug {
        &self.0
    }
    fn at(&self) -> usize {
        &self.0 as *const T as usize
    }
    fn tid(&self) -> TypeId {
        TypeId::of::<T>()
    }
    fn down(&self, bag: &ValueBag) -> (Option<(usize, String)>, bool) {
        down_to::<T>(bag)
    }
}

impl Subject for Txt {
    fn capture<'v>(&'v self, route: &str) -> Bag<'v> {
        cap_debug(self, route).or_else(|| cap_display(self, route))
    }
    fn debug(&self) -> &dyn fmt::Debug {
        self
    }
    fn display(&self) -> Option<&dyn fmt::Display> {
        Some(self)
    }
    fn at(&self) -> usize {
        self as *const Self as usize
    }
    fn tid(&self) -> TypeId {
        TypeId::of::<Self>()
    }
    fn down(&self, bag: &ValueBag) -> (Option<(usize, String)>, bool) {
        (bag.downcast_ref::<Txt>().map(|v| (v as *const Txt as usize, v.dbg.clone())), bag.is::<Txt>())
    }
}

impl Subject for ErrObj {
    fn capture<'v>(&'v self, route: &str) -> Bag<'v> {
        #[cfg(feature = "error")]
        {
            let e = self as &'v (dyn std::error::Error + 'static);
            let b = match route {
                "capture_error" => Some(ValueBag::capture_error(self)),
                "from_dyn_error" => Some(ValueBag::from_dyn_error(e)),
                "into_dyn_error" => Some(ValueBag::from(e)),
                "into_ref_dyn_error" => Some(ValueBag::from(leak(e))),
                "into_opt_dyn_error" => Some(ValueBag::from(Some(e))),
                "fill_error" => Some(deferred(move |s| s.fill_error(self.clone()))),
                "fill_dyn_error" => Some(deferred(move |s| s.fill_dyn_error(e))),
                #[cfg(feature = "owned")]
                "shared_error" => Some(ValueBag::capture_shared_error(self.clone())),
                #[cfg(feature = "owned")]
                "fill_shared_error" => {
                    Some(deferred_bag(ValueBag::capture_shared_error(self.clone())))
                }
                _ => None,
            };
            if b.is_some() {
                return b;
            }
        }
        cap_debug(self, route).or_else(|| cap_display(self, route))
    }
    fn debug(&self) -> &dyn fmt::Debug {
        self
    }
    fn display(&self) -> Option<&dyn fmt::Display> {
        Some(self)
    }
    fn error(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(self)
    }
    fn at(&self) -> usize {
        self as *const Self as usize
    }
    fn tid(&self) -> TypeId {
        TypeId::of::<Self>()
    }
    fn down(&self, bag: &ValueBag) -> (Option<(usize, String)>, bool) {
        down_to::<Self>(bag)
    }
}

/// Sources without content.
pub struct Nothing;

impl Subject for Nothing {
    fn capture<'v>(&'v self, route: &str) -> Bag<'v> {
        Some(match route {
            "empty" => ValueBag::empty(),
            "option_none" => ValueBag::from_option(None::<u8>),
            "fill_any_empty" => deferred(move |s| s.fill_any(())),
            "none_dyn_debug" => ValueBag::from(None::<&dyn fmt::Debug>),
            "none_dyn_display" => ValueBag::from(None::<&dyn fmt::Display>),
            #[cfg(feature = "error")]
            "none_dyn_error" => ValueBag::from(None::<&(dyn std::error::Error + 'static)>),
            #[cfg(feature = "sval")]
            "none_dyn_sval2" => ValueBag::from(None::<&dyn sval_dynamic::Value>),
            "fill_fail" => deferred(move |_| Err(Error::msg("no content"))),
            "fill_fail_fmt" => deferred(move |_| Err(Error::from(fmt::Error))),
            #[cfg(feature = "error")]
            "fill_fail_boxed" => deferred(move |_| Err(Error::boxed(String::from("no content")))),
            #[cfg(feature = "error")]
            "fill_fail_io" => deferred(move |_| Err(Error::from(std::io::Error::new(std::io::ErrorKind::Other, "no content")))),
            "fill_noop" => deferred(move |_| Ok(())),
            "fill_then_fail" => deferred(move |s| {
                s.fill_any(1u64)?;
                Err(Error::msg("no content"))
            }),
            _ => return None,
        })
    }
    fn debug(&self) -> &dyn fmt::Debug {
        &()
    }
    fn at(&self) -> usize {
        0
    }
    fn tid(&self) -> TypeId {
        TypeId::of::<Nothing>()
    }
    fn down(&self, bag: &ValueBag) -> (Option<(usize, String)>, bool) {
        (bag.downcast_ref::<Nothing>().map(|_| (1, String::new())), bag.is::<Nothing>())
    }
}

/// An element of a mixed list.
#[derive(Clone)]
pub struct El {
    pub inst: Arc<Inst>,
    pub route: Arc<str>,
}

impl<'v> From<&'v El> for ValueBag<'v> {
    fn from(e: &'v El) -> Self {
        touch();
        e.inst.subj.capture(&e.route).expect("route of a list element")
    }
}

#[cfg(feature = "seq")]
macro_rules! arrays {
    ($v:expr, $r:expr, $opt:expr, $($n:literal)*) => {
        match $v.len() {
            $($n => {
                let a: &[_; $n] = (&$v[..]).try_into().unwrap();
                if $opt { ValueBag::from(Some(a)) } else { ValueBag::from(a) }
            })*
            _ => return None,
        }
    };
}

#[cfg(feature = "seq")]
macro_rules! slices {
    ($($name:ident $t:ty, arr: $arr:tt, vec: $vec:tt;)*) => {$(
        #[allow(unused_variables)]
        fn $name<'v>(v: &'v Vec<$t>, route: &str) -> Bag<'v> {
            Some(match route {
                "seq_slice" => ValueBag::from_seq_slice(v),
                "fill_seq_slice" => {
                    let kept: &'static Vec<$t> = leak(v.clone());
                    deferred(move |s| s.fill_seq_slice(kept))
                }
                #[cfg(feature = "owned")]
                "shared_seq_slice" => ValueBag::capture_shared_seq_slice(v.clone()),
                #[cfg(feature = "owned")]
                "fill_shared_seq_slice" => deferred_bag(ValueBag::capture_shared_seq_slice(v.clone())),
                r => return slices!(@arr $arr, v, r, $t).or_else(|| slices!(@vec $vec, v, r, $t)),
            })
        }
    )*};
    (@arr y, $v:ident, $r:ident, $t:ty) => { (|| Some(match $r {
        "into_array" => arrays!($v, $r, false, 0 1 2 3 4 20),
        "into_opt_array" => arrays!($v, $r, true, 0 1 2 3 4 20),
        "none_array" => ValueBag::from(None::<&[$t; 3]>),
        "into_slice" => ValueBag::from(leak(&$v[..])),
        "into_opt_slice" => ValueBag::from(Some(leak(&$v[..]))),
        "none_slice" => ValueBag::from(None::<&&[$t]>),
        _ => return None,
    }))() };
    (@vec y, $v:ident, $r:ident, $t:ty) => { (|| -> Bag<'v> { Some(match $r {
        #[cfg(feature = "alloc")]
        "into_vec" => ValueBag::from($v),
        #[cfg(feature = "alloc")]
        "into_opt_vec" => ValueBag::from(Some($v)),
        #[cfg(feature = "alloc")]
        "none_vec" => ValueBag::from(None::<&Vec<$t>>),
        _ => return None,
    })})() };
    (@arr n, $v:ident, $r:ident, $t:ty) => { None };
    (@vec n, $v:ident, $r:ident, $t:ty) => { None };
}

#[cfg(not(feature = "seq"))]
macro_rules! slices {
    ($($name:ident $t:ty, arr: $arr:tt, vec: $vec:tt;)*) => {$(
        fn $name<'v>(_: &'v Vec<$t>, _: &str) -> Bag<'v> { None }
    )*};
}

slices! {
    sl_u8 u8, arr: y, vec: y;
    sl_u16 u16, arr: y, vec: y;
    sl_u32 u32, arr: y, vec: y;
    sl_u64 u64, arr: y, vec: y;
    sl_usize usize, arr: y, vec: y;
    sl_u128 u128, arr: y, vec: y;
    sl_i8 i8, arr: y, vec: y;
    sl_i16 i16, arr: y, vec: y;
    sl_i32 i32, arr: y, vec: y;
    sl_i64 i64, arr: y, vec: y;
    sl_isize isize, arr: y, vec: y;
    sl_i128 i128, arr: y, vec: y;
    sl_f32 f32, arr: y, vec: y;
    sl_f64 f64, arr: y, vec: y;
    sl_bool bool, arr: y, vec: y;
    sl_char char, arr: y, vec: y;
    sl_sstr &'static str, arr: y, vec: n;
    sl_mixed El, arr: n, vec: n;
}

#[cfg(feature = "alloc")]
slices! {
    sl_string String, arr: n, vec: y;
}

#[cfg(not(feature = "alloc"))]
fn sl_string<'v>(_: &'v Vec<String>, _: &str) -> Bag<'v> {
    None
}

pub struct List<T>(pub Vec<T>, pub for<'v> fn(&'v Vec<T>, &str) -> Bag<'v>);

impl<T: Clone + Send + Sync + 'static> Subject for List<T> {
    fn capture<'v>(&'v self, route: &str) -> Bag<'v> {
        (self.1)(&self.0, route)
    }
    fn debug(&self) -> &dyn fmt::Debug {
        &()
    }
    fn at(&self) -> usize {
        &self.0 as *const Vec<T> as usize
    }
    fn tid(&self) -> TypeId {
        TypeId::of::<Vec<T>>()
    }
    fn down(&self, bag: &ValueBag) -> (Option<(usize, String)>, bool) {
        (
            bag.downcast_ref::<Vec<T>>().map(|v| (v as *const Vec<T> as usize, String::new())),
            bag.is::<Vec<T>>(),
        )
    }
}

/// A concrete source.
pub struct Inst {
    pub def: J,
    pub subj: Box<dyn Subject>,
    /// The plain datum of a primitive (also inside an optional).
    pub leaf: Option<LV>,
    /// Where its text lives.
    pub text: Option<(usize, usize)>,
    /// All texts of the source.
    pub texts: Vec<(usize, usize)>,
    pub els: Vec<Arc<Inst>>,
}

impl Inst {
    pub fn ty(&self) -> &str {
        self.def["ty"].as_str().unwrap()
    }
    pub fn opt(&self) -> &str {
        self.def["opt"].as_str().unwrap()
    }
    /// Whether any number in it is negative.
    pub fn negative(&self) -> bool {
        let mut data: Vec<LV> = self.leaf.iter().cloned().collect();
        if let Some(t) = self.subj.term() {
            t.leaves(&mut data);
        }
        data.iter().any(|v| matches!(v, LV::I(i) if *i < 0)) || self.els.iter().any(|e| e.negative())
    }
}

fn none<'v, T>(_: &'v T, _: &str) -> Bag<'v> {
    None
}

fn prim_subject<T: Prim + fmt::Display>(v: T, opt: &str) -> Box<dyn Subject>
where
    Option<T>: MaybeSval,
{
    match opt {
        "no" => Box::new(Full(v, T::direct)),
        "some" => Box::new(NoDisp(Some(v), T::direct_opt)),
        _ => Box::new(NoDisp(None::<T>, T::direct_opt)),
    }
}

fn prim_of(ty: &str, t: &J, mode: u32, rng: &mut Rng) -> LV {
    if let Some(c) = t["c"].as_str() {
        return class_of(ty, c);
    }
    match ty {
        "f32" => LV::F32(f32_of(mode, rng)),
        "f64" => LV::F(f64_of(mode, rng)),
        "bool" => LV::Bool(rng.below(2) == 1),
        "char" => LV::Char(char_of(mode, rng)),
        "sstr" | "string" | "cow" => LV::Str(text_of(t["l"].as_i64().unwrap(), mode, rng)),
        ty => int_of(ty.starts_with('i'), t["r"].as_i64().unwrap(), mode, rng),
    }
}

fn key_of(def: &J) -> String {
    // representations inside mixed lists depend on the build; values must not
    fn strip(j: &J) -> J {
        match j {
            J::Object(m) => J::Object(m.iter().filter(|(k, _)| *k != "rep").map(|(k, v)| (k.clone(), strip(v))).collect()),
            J::Array(a) => J::Array(a.iter().map(strip).collect()),
            j => j.clone(),
        }
    }
    strip(def).to_string()
}

pub fn src_key(def: &J) -> String {
    key_of(def)
}

pub fn make(def: &J, mode: u32, seed: u64) -> Inst {
    let mut rng = Rng::new(seed, &format!("{}#{mode}", key_of(def)));
    make_with(def, mode, &mut rng)
}

macro_rules! by_type {
    ($ty:expr, $lv:expr, $v:ident => $body:expr, str: $s:ident => $sbody:expr, string: $st:ident => $stbody:expr) => {
        match ($ty, $lv) {
            ("u8", LV::U(x)) => { let $v = x as u8; $body }
            ("u16", LV::U(x)) => { let $v = x as u16; $body }
            ("u32", LV::U(x)) => { let $v = x as u32; $body }
            ("u64", LV::U(x)) => { let $v = x as u64; $body }
            ("usize", LV::U(x)) => { let $v = x as usize; $body }
            ("u128", LV::U(x)) => { let $v = x; $body }
            ("i8", LV::I(x)) => { let $v = x as i8; $body }
            ("i16", LV::I(x)) => { let $v = x as i16; $body }
            ("i32", LV::I(x)) => { let $v = x as i32; $body }
            ("i64", LV::I(x)) => { let $v = x as i64; $body }
            ("isize", LV::I(x)) => { let $v = x as isize; $body }
            ("i128", LV::I(x)) => { let $v = x; $body }
            ("f32", LV::F32(x)) => { let $v = x; $body }
            ("f64", LV::F(x)) => { let $v = x; $body }
            ("bool", LV::Bool(x)) => { let $v = x; $body }
            ("char", LV::Char(x)) => { let $v = x; $body }
            ("sstr", LV::Str(x)) => { let $s: &'static str = Box::leak(x.into_boxed_str()); $sbody }
            ("string", LV::Str(x)) => { let $st: String = x; $stbody }
            (ty, _) => panic!("unknown primitive {ty}"),
        }
    };
}

fn make_with(def: &J, mode: u32, rng: &mut Rng) -> Inst {
    let ty = def["ty"].as_str().unwrap();
    let opt = def["opt"].as_str().unwrap();
    let t = &def["t"];
    let mut inst = Inst {
        def: def.clone(),
        subj: Box::new(Nothing),
        leaf: None,
        text: None,
        texts: vec![],
        els: vec![],
    };
    match ty {
        "unit" => {
            fn unit<'v>(v: &'v (), route: &str) -> Bag<'v> {
                Some(match route {
                    "into_val" => ValueBag::from(()),
                    "option_val" => ValueBag::from_option(Some(())),
                    "into_ref" => ValueBag::from(v),
                    "option_ref" => ValueBag::from_option(Some(v)),
                    "fill_any" => deferred(move |s| s.fill_any(())),
                    _ => return None,
                })
            }
            inst.subj = Box::new(NoDisp((), unit));
        }
        "empty" | "badfill" => (),
        "cow" => {
            let LV::Str(s) = prim_of(ty, t, mode, rng) else { unreachable!() };
            inst.leaf = Some(LV::Str(s.clone()));
            let c: Cow<'static, str> = if rng.below(2) == 0 {
                Cow::Borrowed(Box::leak(s.into_boxed_str()))
            } else {
                Cow::Owned(s)
            };
            inst.text = Some((c.as_ptr() as usize, c.len()));
            fn cow<'v>(v: &'v Cow<'static, str>, route: &str) -> Bag<'v> {
                Some(match route {
                    #[cfg(feature = "alloc")]
                    "into_ref" => ValueBag::from(v),
                    #[cfg(feature = "alloc")]
                    "option_ref" => ValueBag::from_option(Some(v)),
                    _ => {
                        let _ = v;
                        return None;
                    }
                })
            }
            inst.subj = Box::new(Full(c, cow));
        }
        "obj" => {
            let o: Obj<0> = Obj::make(t, mode, rng);
            inst.leaf = o.term.leaf();
            let b: Box<Full<Obj<0>>> = Box::new(Full(o, none));
            inst.text = b.0.term.text_at();
            b.0.term.texts(&mut inst.texts);
            inst.subj = b;
        }
        "txt" => inst.subj = Box::new(Txt::make(t, mode, rng)),
        "err" => inst.subj = Box::new(match t["at"].as_u64() {
            Some(at) => ErrObj::make(1, Some(at), mode, rng),
            None => ErrObj::make(t["n"].as_u64().unwrap(), None, mode, rng),
        }),
        "look" => {
            let n = 1 + rng.below(200);
            let s = text_of(0, mode, rng);
            inst.subj = match t["name"].as_str().unwrap() {
                "wrap_u64" => Box::new(DebugOnly(WrapU64(n))),
                "wrap_str" => Box::new(DebugOnly(WrapStr(s))),
                "nonzero" => Box::new(DebugOnly(std::num::NonZeroU64::new(n).unwrap())),
                "boxed" => Box::new(DebugOnly(Box::new(n))),
                "wrapping" => Box::new(DebugOnly(std::num::Wrapping(n))),
                "optopt" => Box::new(DebugOnly(Some(Some(n)))),
                "ref_u64" => Box::new(DebugOnly(leak::<u64>(n) as &'static u64)),
                "rc_str" => Box::new(DebugOnly(Arc::<str>::from(&*s))),
                "box_str" => Box::new(DebugOnly(s.into_boxed_str())),
                "array" => Box::new(DebugOnly([n as u8; 4])),
                "unit_opt" => Box::new(DebugOnly(Some(()))),
                "atomic" => Box::new(DebugOnly(Arc::new(std::sync::atomic::AtomicU64::new(n)))),
                "bytes" => Box::new(DebugOnly(&b"bytes"[..])),
                "vec" => Box::new(DebugOnly(vec![n, 1])),
                "duration" => Box::new(DebugOnly(std::time::Duration::from_millis(n))),
                "tuple1" => Box::new(DebugOnly((n,))),
                x => panic!("unknown lookalike {x}"),
            };
        }
        "slice" => {
            let ety = def["ety"].as_str().unwrap();
            if ety == "mixed" {
                let els: Vec<El> = def["els"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| El {
                        inst: Arc::new(make_with(&e["src"], mode, rng)),
                        route: Arc::from(e["route"].as_str().unwrap()),
                    })
                    .collect();
                inst.els = els.iter().map(|e| e.inst.clone()).collect();
                inst.texts = inst.els.iter().flat_map(|e| e.texts.clone()).collect();
                inst.subj = Box::new(List(els, sl_mixed));
            } else {
                let xs = t["xs"].as_array().unwrap();
                let vals: Vec<LV> = xs.iter().map(|x| prim_of(ety, x, mode, rng)).collect();
                let mut els: Vec<Inst> = xs
                    .iter()
                    .zip(&vals)
                    .map(|(x, v)| prim_inst(ety, "no", x, v.clone()))
                    .collect();
                macro_rules! list {
                    ($var:path, $t:ty, $f:ident) => {
                        Box::new(List(
                            vals.iter().map(|v| if let $var(x) = v { *x as $t } else { unreachable!() }).collect::<Vec<$t>>(),
                            $f,
                        ))
                    };
                }
                inst.subj = match ety {
                    "u8" => list!(LV::U, u8, sl_u8),
                    "u16" => list!(LV::U, u16, sl_u16),
                    "u32" => list!(LV::U, u32, sl_u32),
                    "u64" => list!(LV::U, u64, sl_u64),
                    "usize" => list!(LV::U, usize, sl_usize),
                    "u128" => list!(LV::U, u128, sl_u128),
                    "i8" => list!(LV::I, i8, sl_i8),
                    "i16" => list!(LV::I, i16, sl_i16),
                    "i32" => list!(LV::I, i32, sl_i32),
                    "i64" => list!(LV::I, i64, sl_i64),
                    "isize" => list!(LV::I, isize, sl_isize),
                    "i128" => list!(LV::I, i128, sl_i128),
                    "f32" => list!(LV::F32, f32, sl_f32),
                    "f64" => list!(LV::F, f64, sl_f64),
                    "bool" => list!(LV::Bool, bool, sl_bool),
                    "char" => list!(LV::Char, char, sl_char),
                    "sstr" => {
                        let v: Vec<&'static str> = vals
                            .iter()
                            .map(|v| if let LV::Str(s) = v { &*Box::leak(s.clone().into_boxed_str()) } else { unreachable!() })
                            .collect();
                        for (e, s) in els.iter_mut().zip(&v) {
                            e.text = Some((s.as_ptr() as usize, s.len()));
                        }
                        Box::new(List(v, sl_sstr))
                    }
                    "string" => {
                        let v: Vec<String> =
                            vals.iter().map(|v| if let LV::Str(s) = v { s.clone() } else { unreachable!() }).collect();
                        for (e, s) in els.iter_mut().zip(&v) {
                            e.text = Some((s.as_ptr() as usize, s.len()));
                        }
                        Box::new(List(v, sl_string))
                    }
                    x => panic!("unknown element type {x}"),
                };
                inst.texts = els.iter().filter_map(|e| e.text).collect();
                inst.els = els.into_iter().map(Arc::new).collect();
            }
        }
        ty => {
            let lv = prim_of(ty, t, mode, rng);
            inst = prim_inst(ty, opt, t, lv);
            inst.def = def.clone();
        }
    }
    if let Some(t) = inst.text {
        if inst.texts.is_empty() {
            inst.texts.push(t);
        }
    }
    inst
}

fn prim_inst(ty: &str, opt: &str, t: &J, lv: LV) -> Inst {
    let mut text = None;
    let leaf = Some(lv.clone());
    let subj = by_type!(ty, lv,
        v => prim_subject(v, opt),
        str: s => { text = Some((s.as_ptr() as usize, s.len())); prim_subject(s, opt) },
        string: s => { text = Some((s.as_ptr() as usize, s.len())); prim_subject(s, opt) });
    Inst {
        def: serde_json::json!({"ty": ty, "opt": opt, "t": t}),
        subj,
        leaf,
        text,
        texts: text.into_iter().collect(),
        els: vec![],
    }
}
