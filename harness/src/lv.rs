//! Plain data values, and a small deterministic generator.

use std::fmt;

#[derive(Clone, Debug)]
pub enum LV {
    U(u128),
    I(i128),
    F32(f32),
    F(f64),
    Bool(bool),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    /// Some text; which one is left open.
    AnyText,
}

impl LV {
    /// The same number presented by a bag: single precision counts as double.
    pub fn widened(&self) -> LV {
        match self {
            LV::F32(v) => LV::F(*v as f64),
            v => v.clone(),
        }
    }

    pub fn fmt_debug(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            LV::U(v) => fmt::Debug::fmt(v, f),
            LV::I(v) => fmt::Debug::fmt(v, f),
            LV::F32(v) => fmt::Debug::fmt(&(*v as f64), f),
            LV::F(v) => fmt::Debug::fmt(v, f),
            LV::Bool(v) => fmt::Debug::fmt(v, f),
            LV::Char(v) => fmt::Debug::fmt(v, f),
            LV::Str(v) => fmt::Debug::fmt(v, f),
            LV::Bytes(v) => fmt::Debug::fmt(v, f),
            LV::AnyText => f.write_str("<any text>"),
        }
    }

    pub fn fmt_display(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            LV::U(v) => fmt::Display::fmt(v, f),
            LV::I(v) => fmt::Display::fmt(v, f),
            LV::F32(v) => fmt::Display::fmt(&(*v as f64), f),
            LV::F(v) => fmt::Display::fmt(v, f),
            LV::Bool(v) => fmt::Display::fmt(v, f),
            LV::Char(v) => fmt::Display::fmt(v, f),
            LV::Str(v) => fmt::Display::fmt(v, f),
            v => v.fmt_debug(f),
        }
    }

    pub fn same(&self, other: &LV) -> bool {
        match (self, other) {
            (LV::U(a), LV::U(b)) => a == b,
            (LV::I(a), LV::I(b)) => a == b,
            (LV::F32(a), LV::F32(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (LV::F(a), LV::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (LV::Bool(a), LV::Bool(b)) => a == b,
            (LV::Char(a), LV::Char(b)) => a == b,
            (LV::Str(a), LV::Str(b)) => a == b,
            (LV::Bytes(a), LV::Bytes(b)) => a == b,
            (LV::AnyText, LV::Str(_)) | (LV::Str(_), LV::AnyText) => true,
            _ => false,
        }
    }
}

pub fn show_f64(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{v:?}#{:016x}", v.to_bits())
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, salt: &str) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
}

/// Interval of integers of a given rank (see Lattice.tla), non-negative ranks.
pub fn rank_bounds_u(r: i64) -> (u128, u128) {
    match r {
        0 => (0, i8::MAX as u128),
        1 => (i8::MAX as u128 + 1, u8::MAX as u128),
        2 => (u8::MAX as u128 + 1, i16::MAX as u128),
        3 => (i16::MAX as u128 + 1, u16::MAX as u128),
        4 => (u16::MAX as u128 + 1, i32::MAX as u128),
        5 => (i32::MAX as u128 + 1, u32::MAX as u128),
        6 => (u32::MAX as u128 + 1, i64::MAX as u128),
        7 => (i64::MAX as u128 + 1, u64::MAX as u128),
        8 => (u64::MAX as u128 + 1, i128::MAX as u128),
        9 => (i128::MAX as u128 + 1, u128::MAX),
        _ => unreachable!(),
    }
}

pub fn rank_bounds_i(r: i64) -> (i128, i128) {
    match r {
        -1 => (i8::MIN as i128, -1),
        -2 => (i16::MIN as i128, i8::MIN as i128 - 1),
        -3 => (i32::MIN as i128, i16::MIN as i128 - 1),
        -4 => (i64::MIN as i128, i32::MIN as i128 - 1),
        -5 => (i128::MIN, i64::MIN as i128 - 1),
        _ => unreachable!(),
    }
}

/// An integer of rank r; `mode` 0 is the low end, 1 the high end, others vary.
pub fn int_of(signed: bool, r: i64, mode: u32, rng: &mut Rng) -> LV {
    if r >= 0 {
        let (lo, hi) = rank_bounds_u(r);
        let v = match mode {
            0 => lo,
            1 => hi,
            _ => match rng.below(4) {
                0 => lo + (rng.below(3) as u128).min(hi - lo),
                1 => hi - (rng.below(3) as u128).min(hi - lo),
                _ => {
                    let span = hi - lo;
                    lo + if span == u128::MAX { rng.u128() } else { rng.u128() % (span + 1) }
                }
            },
        };
        if signed {
            LV::I(v as i128)
        } else {
            LV::U(v)
        }
    } else {
        let (lo, hi) = rank_bounds_i(r);
        let span = hi.wrapping_sub(lo) as u128;
        let v = match mode {
            0 => lo,
            1 => hi,
            _ => match rng.below(4) {
                0 => lo.wrapping_add((rng.below(3) as u128).min(span) as i128),
                1 => hi.wrapping_sub((rng.below(3) as u128).min(span) as i128),
                _ => lo.wrapping_add((rng.u128() % (span.wrapping_add(1).max(1))) as i128),
            },
        };
        LV::I(v)
    }
}

pub fn f64_of(mode: u32, rng: &mut Rng) -> f64 {
    const S: [f64; 16] = [
        0.1, 42.0, -0.0, 0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX,
        f64::MIN, 1e21, -1.5, 16777217.0, 9007199254740993.0, 1e-7,
    ];
    match mode {
        0 => *rng.pick(&S[..2]),
        1 => *rng.pick(&S),
        _ => match rng.below(3) {
            0 => *rng.pick(&S),
            1 => f64::from_bits(rng.next()),
            _ => (rng.next() as i32) as f64 / 8.0,
        },
    }
}

pub fn f32_of(mode: u32, rng: &mut Rng) -> f32 {
    const S: [f32; 10] = [
        0.1, 42.0, -0.0, 0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX, 16777217.0,
    ];
    match mode {
        0 => *rng.pick(&S[..2]),
        1 => *rng.pick(&S),
        _ => match rng.below(2) {
            0 => *rng.pick(&S),
            _ => f32::from_bits(rng.next() as u32),
        },
    }
}

pub fn char_of(mode: u32, rng: &mut Rng) -> char {
    const S: [char; 9] = ['a', '7', '\u{10FFFF}', '\0', '\'', '"', '\u{df}', '\u{20ac}', '\u{1f600}'];
    match mode {
        0 => 'a',
        1 => *rng.pick(&S),
        _ => char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('7'),
    }
}

/// Byte lengths of a text class.
pub fn class_bounds(l: i64) -> (usize, usize) {
    match l {
        0 => (0, 22),
        1 => (23, 46),
        2 => (47, 64),
        _ => (65, 1100),
    }
}

pub fn text_exact(len: usize, rng: &mut Rng) -> String {
    let mut s = String::new();
    let mut left = len;
    let style = rng.below(3);
    while left > 0 {
        let c = match style {
            0 => (b'a' + rng.below(26) as u8) as char,
            _ => *rng.pick(&['a', 'Z', '0', '"', '\\', '\n', ' ', '\0', '\t', '\u{301}', '\u{e9}', '\u{df}', '\u{20ac}', '\u{4e2d}', '\u{1f600}', '\u{10ffff}']),
        };
        let c = if c.len_utf8() <= left { c } else { 'x' };
        left -= c.len_utf8();
        s.push(c);
    }
    s
}

pub fn text_of(l: i64, mode: u32, rng: &mut Rng) -> String {
    let (lo, hi) = class_bounds(l);
    match mode {
        0 => text_exact(if l == 0 { 1 + rng.below(8) as usize } else { lo }, rng),
        1 => text_exact(hi, rng),
        2 => text_exact(lo, rng),
        3 if l == 3 => text_exact(66_000, rng),
        3 if l == 0 => {
            rng.pick(&["42", "true", "-1", "1.5", "a", "NaN", "None", "null", "false", "\u{e9}"]).to_string()
        }
        _ => {
            let n = lo + rng.below((hi - lo + 1) as u64) as usize;
            text_exact(n, rng)
        }
    }
}

/// Distinguished values, named as in Lattice.tla.
pub fn class_of(ty: &str, c: &str) -> LV {
    match (ty, c) {
        ("f64", c) => LV::F(match c {
            "frac" => 0.1,
            "int" => 42.0,
            "zero" => 0.0,
            "negzero" => -0.0,
            "nan" => f64::NAN,
            "inf" => f64::INFINITY,
            "neginf" => f64::NEG_INFINITY,
            "sub" => 5e-324,
            "minpos" => f64::MIN_POSITIVE,
            "max" => f64::MAX,
            "min" => f64::MIN,
            "e21" => 1e21,
            "neg" => -1.5,
            "above24" => 16777217.0,
            "above53" => 9007199254740994.0,
            "small" => 1e-7,
            _ => panic!("class {c}"),
        }),
        ("f32", c) => LV::F32(match c {
            "frac" => 0.1,
            "int" => 42.0,
            "zero" => 0.0,
            "negzero" => -0.0,
            "nan" => f32::NAN,
            "inf" => f32::INFINITY,
            "neginf" => f32::NEG_INFINITY,
            "sub" => 1e-45,
            "minpos" => f32::MIN_POSITIVE,
            "max" => f32::MAX,
            "above24" => 16777218.0,
            _ => panic!("class {c}"),
        }),
        ("char", c) => LV::Char(match c {
            "letter" => 'a',
            "digit" => '7',
            "nul" => '\0',
            "quote" => '\'',
            "dquote" => '"',
            "two" => '\u{df}',
            "three" => '\u{20ac}',
            "four" => '\u{1f600}',
            "last" => '\u{10FFFF}',
            _ => panic!("class {c}"),
        }),
        ("bool", c) => LV::Bool(c == "true"),
        (_, c) => LV::Str(
            match c {
                "empty" => "",
                "digits" => "42",
                "negative" => "-1",
                "float" => "1.5",
                "true" => "true",
                "false" => "false",
                "letter" => "a",
                "nan" => "NaN",
                "none" => "None",
                "null" => "null",
                "wide" => "\u{e9}",
                "control" => "\0\n\"\\\u{7f}",
                "nul" => "\0",
                "nulend" => "ab\0\0",
                "space" => " a ",
                "newline" => "a\r\n",
                "hex" => "0xff",
                "plus" => "+5",
                "exp" => "1e3",
                "inf" => "inf",
                "quoted" => "\"a\"",
                "mark" => "\u{feff}a",
                "some" => "Some(1)",
                "unit" => "()",
                "big" => "340282366920938463463",
                "combining" => "e\u{301}",
                "comma" => "1,2",
                _ => panic!("class {c}"),
            }
            .into(),
        ),
    }
}
