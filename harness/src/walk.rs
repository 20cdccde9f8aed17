//! Replaying paths of the state graph and comparing every observation.

use crate::cap::*;
use crate::graph::*;
use crate::lv::*;
use crate::obj::*;
use crate::rec::*;
use serde_json::Value as J;
use std::any::TypeId;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};
use value_bag::fill::Slot;
use value_bag::visit::Visit;
use value_bag::{Error, ValueBag};

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub props: BTreeSet<&'static str>,
    pub src: String,
    pub route: String,
    pub mode: u32,
    pub path: String,
    pub key: String,
    pub op: String,
    pub exp: String,
    pub got: String,
}

#[derive(Default)]
pub struct Report {
    pub mismatches: Vec<Mismatch>,
    pub per_prop: BTreeMap<&'static str, u64>,
    pub captures: u64,
    pub steps: u64,
    pub checks: BTreeMap<&'static str, u64>,
    pub faults: u64,
    pub nodes_hit: u64,
    pub digests: BTreeMap<String, Vec<(u64, u64)>>,
    /// Complete paths replayed.
    pub traces: u64,
    pub samples: Vec<String>,
}

/// Which observations to make: those that can bear on the property asked about.
#[derive(Clone, Copy)]
pub struct Want {
    pub cast: bool,
    pub id: bool,
    pub fmt: bool,
    pub visit: bool,
    pub serde: bool,
    pub sval: bool,
    pub seq: bool,
    pub err: bool,
    pub token: bool,
    pub touch: bool,
    pub why: bool,
    pub faults: bool,
}

impl Want {
    pub fn of(prop: Option<&str>) -> Want {
        let no = Want {
            cast: false,
            id: false,
            fmt: false,
            visit: false,
            serde: false,
            sval: false,
            seq: false,
            err: false,
            token: false,
            touch: false,
            why: false,
            faults: false,
        };
        let all = Want {
            cast: true,
            id: true,
            fmt: true,
            visit: true,
            serde: true,
            sval: true,
            seq: true,
            err: true,
            token: true,
            touch: true,
            why: true,
            faults: true,
        };
        match prop {
            Some("P01" | "P02" | "P03") => Want { cast: true, ..no },
            Some("P05") => Want { id: true, ..no },
            Some("P06") => Want { fmt: true, ..no },
            Some("P07") => Want { serde: true, ..no },
            Some("P08") => Want { sval: true, ..no },
            Some("P09") => Want { serde: true, sval: true, ..no },
            Some("P17") => Want { seq: true, ..no },
            Some("P25") => Want { token: true, ..no },
            Some("P26") => Want { why: true, faults: true, ..no },
            Some("P21") => Want { visit: true, faults: true, ..no },
            Some("P14") => Want { touch: true, ..all },
            Some(_) => Want { faults: false, touch: false, why: false, ..all },
            None => all,
        }
    }
}

fn failing(key: &str) -> bool {
    key.contains("\"fail\"") || key.contains("\"late\"")
}

/// The sources that can bear on a property.
pub fn relevant(prop: Option<&str>, key: &str) -> bool {
    let ty = |t: &str| key.contains(&format!("\"ty\":\"{t}\""));
    match prop {
        Some("P16") => ["sstr", "string", "cow", "txt", "look", "char"].iter().any(|t| ty(t)),
        Some("P18") => ty("slice"),
        Some("P19") => ty("err"),
        Some("P20" | "P22") => failing(key) || ty("badfill"),
        _ => true,
    }
}

impl Report {
    pub fn merge(&mut self, o: Report) {
        self.mismatches.extend(o.mismatches);
        for (k, v) in o.per_prop {
            *self.per_prop.entry(k).or_default() += v;
        }
        for (k, v) in o.checks {
            *self.checks.entry(k).or_default() += v;
        }
        self.captures += o.captures;
        self.steps += o.steps;
        self.faults += o.faults;
        self.nodes_hit += o.nodes_hit;
        self.digests.extend(o.digests);
        self.traces += o.traces;
        if self.samples.len() < 6 {
            self.samples.extend(o.samples.into_iter().take(2));
        }
    }
}

/// Result groups compared between builds.
const GROUPS: [&str; 6] = ["base", "text", "serde", "sval", "seq", "err"];
const ENABLED: [bool; 6] = [
    true,
    cfg!(feature = "alloc"),
    cfg!(feature = "serde"),
    cfg!(feature = "sval"),
    cfg!(feature = "seq"),
    cfg!(feature = "error"),
];

pub struct Walk<'g> {
    pub src: &'g Source,
    pub inst: &'g Inst,
    pub route: &'g str,
    pub mode: u32,
    pub rep: &'g mut Report,
    pub seen: HashSet<usize>,
    pub path: Vec<String>,
    /// Where the shared object was first seen.
    pub shared_at: Option<usize>,
    pub digest: bool,
    pub faults: bool,
    pub want: Want,
    /// current operation, for panics
    pub op: &'static str,
    pub node: usize,
    /// operations that already differed further up the path
    down: Vec<HashSet<String>>,
    hashes: Vec<std::collections::hash_map::DefaultHasher>,
    group: usize,
}

fn s<'a>(j: &'a J) -> &'a str {
    j.as_str().unwrap_or("")
}

fn prop_of(op: &str) -> &'static str {
    match op {
        "u8" | "u16" | "u32" | "u64" | "usize" | "u128" | "i8" | "i16" | "i32" | "i64" | "isize" | "i128" | "to_u64"
        | "to_i64" | "to_u128" | "to_i128" => "P01",
        "f64" | "to_f64" | "as_f64" => "P02",
        "bool" | "char" | "to_bool" | "to_char" | "to_str" | "string" | "cow" | "str" | "to_borrowed_str" => "P03",
        "empty" | "capture" => "P04",
        "down" | "foreign" => "P05",
        "err" => "P19",
        "dbg" | "dsp" => "P06",
        "serde" | "serde-form" => "P07",
        "sval" | "sval-form" | "sval-borrow" => "P08",
        "visit" | "visit-any" | "visit-str" | "visit-ref" | "visit-err" => "P10",
        "runs" => "P11",
        "touch" => "P14",
        "token" => "P25",
        "seq" => "P17",
        "why-serde" | "why-visit" | "why-fault" | "why-text" => "P26",
        "fault-serde" | "fault-sval" | "fault-fmt" => "P21",
        _ => "P12",
    }
}

/// An expected formatting, rendered the way the specification says.
struct Show<'a> {
    inst: &'a Inst,
    obs: &'a J,
    dbg: bool,
}

impl Show<'_> {
    fn render(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let v = s(&self.obs["v"]);
        let sym = s(&self.obs[if self.dbg { "dbg" } else { "dsp" }]);
        let dynamic = matches!(v, "debug" | "display" | "error");
        match sym {
            "D" if dynamic => self.inst.subj.debug().fmt(f),
            "P" if dynamic => self.inst.subj.display().unwrap().fmt(f),
            "D" => self.inst.leaf.as_ref().unwrap().fmt_debug(f),
            "P" => self.inst.leaf.as_ref().unwrap().fmt_display(f),
            "TD" => f.write_str(&format!("{:?}", self.inst.subj.debug())),
            "TP" => f.write_str(&format!("{}", self.inst.subj.display().unwrap())),
            "None" => f.write_str("None"),
            "SV" => self.inst.subj.fmt_sval(f),
            "SE" => self.inst.subj.fmt_serde(f),
            "LIST" => f
                .debug_list()
                .entries(
                    self.inst
                        .els
                        .iter()
                        .zip(self.obs["els"].as_array().unwrap())
                        .map(|(inst, obs)| Show { inst, obs, dbg: true }),
                )
                .finish(),
            _ => Err(fmt::Error),
        }
    }
}
impl fmt::Debug for Show<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.render(f)
    }
}
impl fmt::Display for Show<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.render(f)
    }
}

/// All formatting symbols involved in an observation.
fn symbols(obs: &J, dbg: bool, out: &mut BTreeSet<String>) {
    let sym = s(&obs[if dbg { "dbg" } else { "dsp" }]);
    out.insert(sym.to_string());
    if sym == "LIST" {
        for e in obs["els"].as_array().unwrap() {
            symbols(e, true, out);
        }
    }
}

const FLAGS: usize = 13;
/// From here on debug output is in hexadecimal.
const HEX: usize = 10;
fn fmt_dbg(sink: &mut Sink, i: usize, v: &dyn fmt::Debug) -> fmt::Result {
    match i {
        0 => write!(sink, "{v:?}"),
        1 => write!(sink, "{v:#?}"),
        2 => write!(sink, "{v:>14?}"),
        3 => write!(sink, "{v:08.3?}"),
        4 => write!(sink, "{v:+?}"),
        5 => write!(sink, "{v:*^9?}"),
        6 => write!(sink, "{v:<12?}|"),
        7 => write!(sink, "{v:.1?}"),
        8 => write!(sink, "{v:#012.2?}"),
        9 => write!(sink, "{v:+7.0?}"),
        10 => write!(sink, "{v:x?}"),
        11 => write!(sink, "{v:#X?}"),
        _ => write!(sink, "{v:#06x?}"),
    }
}
fn fmt_dsp(sink: &mut Sink, i: usize, v: &dyn fmt::Display) -> fmt::Result {
    match i {
        0 => write!(sink, "{v}"),
        1 => write!(sink, "{v:#}"),
        2 => write!(sink, "{v:>14}"),
        3 => write!(sink, "{v:08.3}"),
        4 => write!(sink, "{v:+}"),
        5 => write!(sink, "{v:*^9}"),
        6 => write!(sink, "{v:<12}|"),
        7 => write!(sink, "{v:.1}"),
        8 => write!(sink, "{v:#012.2}"),
        9 => write!(sink, "{v:+7.0}"),
        10 => write!(sink, "{v:^+8}"),
        11 => write!(sink, "{v:_<6.2}"),
        _ => write!(sink, "{v:>-5}"),
    }
}

/// Data expected with the output tokens.
fn leaves(inst: &Inst, obs: &J, out: &mut Vec<LV>) {
    let v = s(&obs["v"]);
    let buf = s(&obs["o"]) == "buf";
    let open = s(&obs["dsp"]) == "EXPL";
    match v {
        "none" | "poison" => (),
        "debug" if open && buf => out.push(LV::AnyText),
        "display" | "error" if open && buf => out.push(LV::AnyText),
        "debug" => {
            let mut t = String::new();
            let _ = write!(t, "{:?}", inst.subj.debug());
            out.push(LV::Str(t));
        }
        "display" | "error" => {
            let mut t = String::new();
            let _ = write!(t, "{}", inst.subj.display().unwrap());
            out.push(LV::Str(t));
        }
        "sval" | "serde" => match inst.subj.term() {
            Some(t) => t.leaves(out),
            None if inst.opt() == "none" => (),
            None => out.extend(inst.leaf.clone()),
        },
        "seq" => {
            for (i, e) in inst.els.iter().zip(obs["els"].as_array().unwrap()) {
                leaves(i, e, out);
            }
        }
        "fill_then_fail" => out.push(LV::U(1)),
        _ => out.extend(inst.leaf.clone()),
    }
}

/// Expected tokens with their data.
fn expected_toks(inst: &Inst, obs: &J, fw: &str) -> Vec<Tok> {
    let mut data = vec![];
    leaves(inst, obs, &mut data);
    let mut data = data.into_iter();
    obs[fw]["toks"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| {
            let t = s(t);
            let v = match t {
                "bool" | "char" | "bytes" => data.next(),
                "str" => data.next().map(|d| match d {
                    LV::Char(c) => LV::Str(c.to_string()),
                    d => d,
                }),
                _ if t.starts_with("i:") || t.starts_with("t:") => data.next(),
                "f:f64" => data.next().map(|d| d.widened()),
                _ if t.starts_with("f:") => data.next(),
                _ => None,
            };
            let t = if t.starts_with("t:") { "str" } else { t };
            Tok { t: t.to_string(), v }
        })
        .collect()
}

fn tok_eq(exp: &Tok, got: &Tok) -> bool {
    let t = exp.t == got.t
        || (exp.t == "i:u*" && got.t.starts_with("i:u"))
        || (exp.t == "i:i*" && got.t.starts_with("i:i"));
    t && match (&exp.v, &got.v) {
        (None, None) => true,
        (Some(a), Some(b)) => a.same(b),
        _ => false,
    }
}

fn toks_eq(exp: &[Tok], got: &[Tok]) -> bool {
    exp.len() == got.len() && exp.iter().zip(got).all(|(a, b)| tok_eq(a, b))
}

/// One callback of a visitor.
#[derive(Default)]
struct Seen {
    calls: Vec<(&'static str, Option<LV>)>,
    at: Option<(usize, usize)>,
    chain: Option<Vec<Option<String>>>,
    fail: Option<u8>,
}

/// The errors a visitor can come up with, and how they read.
const STOPS: [&str; 4] = ["visitor stopped here", "visitor stopped there", "end of input", "an error occurred when formatting an argument"];
fn stop(how: u8) -> Error {
    match how {
        #[cfg(feature = "std")]
        1 => Error::boxed(STOPS[1]),
        #[cfg(feature = "std")]
        2 => Error::from(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, STOPS[2])),
        3 => Error::from(fmt::Error),
        _ => Error::msg(STOPS[0]),
    }
}

impl Seen {
    fn hit(&mut self, cb: &'static str, v: Option<LV>) -> Result<(), Error> {
        self.calls.push((cb, v));
        match self.fail {
            Some(how) => Err(stop(how)),
            None => Ok(()),
        }
    }
    fn show(&self) -> String {
        let mut t = String::new();
        for (cb, v) in &self.calls {
            t.push_str(cb);
            if let Some(v) = v {
                let _ = write!(t, "={}", show(&[Tok { t: String::new(), v: Some(v.clone()) }]));
            }
            t.push(';');
        }
        if let Some(c) = &self.chain {
            let _ = write!(t, "{c:?}");
        }
        t
    }
}

struct Full_<'a>(&'a mut Seen);
impl<'v> Visit<'v> for Full_<'_> {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.0.hit("any", None)
    }
    fn visit_empty(&mut self) -> Result<(), Error> {
        self.0.hit("empty", None)
    }
    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        self.0.hit("u64", Some(LV::U(v as u128)))
    }
    fn visit_i64(&mut self, v: i64) -> Result<(), Error> {
        self.0.hit("i64", Some(LV::I(v as i128)))
    }
    fn visit_u128(&mut self, v: u128) -> Result<(), Error> {
        self.0.hit("u128", Some(LV::U(v)))
    }
    fn visit_i128(&mut self, v: i128) -> Result<(), Error> {
        self.0.hit("i128", Some(LV::I(v)))
    }
    fn visit_f64(&mut self, v: f64) -> Result<(), Error> {
        self.0.hit("f64", Some(LV::F(v)))
    }
    fn visit_bool(&mut self, v: bool) -> Result<(), Error> {
        self.0.hit("bool", Some(LV::Bool(v)))
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.0.hit("str", Some(LV::Str(v.into())))
    }
    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
        self.0.at = Some((v.as_ptr() as usize, v.len()));
        self.0.hit("bstr", Some(LV::Str(v.into())))
    }
    fn visit_char(&mut self, v: char) -> Result<(), Error> {
        self.0.hit("char", Some(LV::Char(v)))
    }
    #[cfg(feature = "error")]
    fn visit_error(&mut self, e: &(dyn std::error::Error + 'static)) -> Result<(), Error> {
        self.0.chain = Some(chain(e));
        self.0.hit("error", None)
    }
    #[cfg(feature = "error")]
    fn visit_borrowed_error(&mut self, e: &'v (dyn std::error::Error + 'static)) -> Result<(), Error> {
        self.0.at = Some((e as *const _ as *const u8 as usize, 0));
        self.0.chain = Some(chain(e));
        self.0.hit("berror", None)
    }
}

/// A visitor with the required callback only: what it gets is visited again.
struct AnyOnly<'a>(&'a mut Seen, &'a mut Seen);
impl<'v> Visit<'v> for AnyOnly<'_> {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        let _ = v.visit(Full_(self.1));
        self.0.hit("any", None)
    }
}

/// The required callback and text.
struct AnyStr<'a>(&'a mut Seen);
impl<'v> Visit<'v> for AnyStr<'_> {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        self.0.hit("any", None)
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.0.hit("str", Some(LV::Str(v.into())))
    }
}

struct Sub<'a, F: FnMut(&ValueBag)>(&'a mut F, u32);
impl<'v, F: FnMut(&ValueBag)> Visit<'v> for Sub<'_, F> {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        self.1 += 1;
        if self.1 == 1 {
            (self.0)(&v);
        }
        Ok(())
    }
}

/// Hands out a copy of the bag, on every other level through a second supplier.
fn supplier(bag: &ValueBag) -> impl Fn(Slot) -> Result<(), Error> {
    // SAFETY: the supplier does not outlive the step that made it
    let bag: ValueBag<'static> = unsafe { std::mem::transmute(bag.clone()) };
    let turn = std::cell::Cell::new(0);
    move |slot: Slot| {
        ran();
        turn.set(turn.get() + 1);
        if turn.get() % 2 == 1 {
            slot.fill_any(bag.clone())
        } else {
            let inner = |slot: Slot| slot.fill_any(bag.clone());
            // SAFETY: the slot is filled before `inner` goes away
            let second: ValueBag<'static> = unsafe { std::mem::transmute(ValueBag::from_fill(&inner)) };
            slot.fill_any(second)
        }
    }
}

#[cfg(feature = "sval")]
fn stream_to(bag: &ValueBag, rec: &mut Rec, by_ref: bool) -> bool {
    use sval_ref::ValueRef;
    if by_ref {
        bag.stream_ref(rec).is_ok()
    } else {
        sval::Value::stream(bag, rec).is_ok()
    }
}

impl<'g> Walk<'g> {
    pub fn new(src: &'g Source, inst: &'g Inst, route: &'g str, mode: u32, rep: &'g mut Report) -> Self {
        Walk {
            src,
            inst,
            route,
            mode,
            rep,
            seen: HashSet::new(),
            path: vec![],
            shared_at: None,
            digest: false,
            faults: true,
            want: Want::of(None),
            op: "capture",
            node: 0,
            down: vec![],
            hashes: vec![],
            group: 0,
        }
    }

    fn props(&self, op: &str, node: usize) -> BTreeSet<&'static str> {
        let n = &self.src.nodes[node];
        let ty = self.inst.ty();
        let mut p = BTreeSet::new();
        if op.starts_with("why") {
            return ["P26"].into();
        }
        let nested = self.src.key.contains("\"k\":\"bag\"");
        match (op, n.v.as_str()) {
            ("serde" | "serde-form", "sval") | ("sval" | "sval-form", "serde") => {
                p.insert("P09");
            }
            _ => {
                p.insert(prop_of(op));
                if nested && matches!(op, "serde" | "sval" | "serde-form" | "sval-form") {
                    p.insert("P09");
                }
            }
        }
        if n.v == "seq" && matches!(op, "dbg" | "dsp" | "serde" | "sval" | "serde-form" | "sval-form" | "visit") {
            p.insert("P18");
        }
        if n.m == "empty" && ty == "slice" {
            p.insert("P18");
        }
        if n.v == "error" && matches!(op, "dbg" | "dsp" | "serde" | "sval" | "visit" | "err") {
            p.insert("P19");
        }
        if n.v == "poison" {
            p.insert("P20");
        }
        if (failing(&self.src.key) || ty == "badfill") && !op.starts_with("fault") {
            p.insert("P22");
        }
        if n.o == "buf" && matches!(n.v.as_str(), "str" | "debug" | "display") && matches!(op, "dbg" | "dsp" | "to_str" | "serde" | "sval" | "visit") {
            p.insert("P16");
        }
        if op == "visit-err" {
            p.insert("P21");
        }
        if matches!(n.m.as_str(), "prim" | "empty") || ty == "look" {
            p.insert("P04");
        }
        if self.route.starts_with("fill_") {
            p.insert("P11");
        }
        for step in &self.path {
            p.extend(match step.as_str() {
                "by_ref" | "clone" => &["P12"][..],
                "own_clone" => &["P12", "P13"],
                "to_shared" | "into_shared" => &["P13", "P15"],
                "visit_any" => &["P10"],
                "defer" => &["P11"],
                _ => &["P13"],
            });
        }
        p
    }

    fn fail(&mut self, op: &str, node: usize, exp: String, got: String) {
        if self.down.iter().any(|d| d.contains(op)) {
            return;
        }
        if let Some(d) = self.down.last_mut() {
            d.insert(op.to_string());
        }
        let props = self.props(op, node);
        for p in &props {
            *self.rep.per_prop.entry(p).or_default() += 1;
        }
        if self.rep.mismatches.len() < 4000 {
            let cut = |mut t: String| {
                if t.len() > 600 {
                    let mut n = 600;
                    while !t.is_char_boundary(n) {
                        n -= 1;
                    }
                    t.truncate(n);
                    t.push_str("...");
                }
                t
            };
            self.rep.mismatches.push(Mismatch {
                props,
                src: self.src.key.clone(),
                route: self.route.to_string(),
                mode: self.mode,
                path: self.path.join("/"),
                key: self.src.nodes[node].key.clone(),
                op: op.to_string(),
                exp: cut(exp),
                got: cut(got),
            });
        }
    }

    /// A capture that may say no said the wrong thing.
    pub fn wrong_capture(&mut self, exp: &str, got: &str) {
        self.down.push(HashSet::new());
        self.fail("capture", self.node, exp.into(), got.into());
    }

    pub fn panicked(&mut self, msg: String) {
        let (op, node) = (self.op, self.node);
        self.down.clear();
        self.down.push(HashSet::new());
        self.fail(op, node, "no panic".into(), format!("panic: {msg}"));
    }

    fn check(&mut self, op: &'static str, node: usize, exp: Option<String>, got: String) {
        *self.rep.checks.entry(op).or_default() += 1;
        if self.digest {
            (op, &got).hash(&mut self.hashes[self.group]);
        }
        self.sample(op, &got);
        if let Some(exp) = exp {
            if exp != got {
                self.fail(op, node, exp, got);
            }
        }
    }

    fn check_if(&mut self, op: &'static str, node: usize, ok: bool, exp: impl FnOnce() -> String, got: String) {
        *self.rep.checks.entry(op).or_default() += 1;
        if self.digest {
            (op, &got).hash(&mut self.hashes[self.group]);
        }
        self.sample(op, &got);
        if !ok {
            let exp = exp();
            self.fail(op, node, exp, got);
        }
    }

    fn sample(&mut self, op: &str, got: &str) {
        if self.rep.samples.len() < 2 && self.path.len() >= 2 {
            let t: String = got.chars().take(160).collect();
            self.rep.samples.push(format!("{} {} mode {} {}: {op} -> {t}", self.src.key, self.route, self.mode, self.path.join("/")));
        }
    }

    /// Run one operation, checking how often the supplier runs.
    fn run<T>(&mut self, op: &'static str, node: usize, f: impl FnOnce() -> T) -> T {
        self.op = op;
        self.node = node;
        let r0 = RUNS.with(|c| c.get());
        let v = f();
        let n = RUNS.with(|c| c.get()) - r0;
        let d = self.src.nodes[node].obs["runs"].as_u64().unwrap();
        let want = if matches!(op, "empty" | "down" | "foreign") { 0 } else { d };
        // suppliers nested inside lists run on their own account
        if self.inst.ty() != "slice" && n != want && op != "err" {
            self.fail("runs", node, format!("{want} supplier runs in {op}"), format!("{n}"));
        }
        v
    }

    fn observe(&mut self, bag: &ValueBag, node: usize) {
        let n = &self.src.nodes[node];
        let obs = &n.obs;
        #[allow(unused_variables)]
        let inst = self.inst;
        self.rep.steps += 1;
        if self.digest {
            self.hashes = GROUPS.iter().map(|_| Default::default()).collect();
        }
        self.group = 0;

        if self.want.cast {
            self.casts(bag, node);
        }
        if self.want.id {
            self.identity(bag, node);
        }
        if self.want.fmt {
            self.formats(bag, node);
        }
        if self.want.visit {
            self.visits(bag, node);
        }

        // serializers
        #[cfg(feature = "serde")]
        if self.want.serde {
            self.group = 2;
            let mut rec = Rec::new(None);
            let ok = self.run("serde", node, || serde::Serialize::serialize(bag, &mut rec).is_ok());
            self.output("serde", "serde-form", node, ok, &rec);
        }
        #[cfg(feature = "sval")]
        if self.want.sval {
            self.group = 3;
            for by_ref in [true, false] {
                let mut rec = Rec::new(None);
                let ok = self.run("sval", node, || stream_to(bag, &mut rec, by_ref));
                self.output("sval", "sval-form", node, ok, &rec);
                self.borrows(node, &rec);
            }
        }

        // sequences
        #[cfg(feature = "seq")]
        if self.want.seq {
            self.group = 4;
            self.sequences(bag, node);
        }

        // errors
        #[cfg(feature = "error")]
        if self.want.err {
            self.group = 5;
            for via in 0..2 {
                let e = self.run("err", node, || {
                    if via == 0 {
                        bag.to_borrowed_error()
                    } else {
                        <&(dyn std::error::Error + 'static)>::try_from(bag.clone()).ok()
                    }
                });
                let got = format!("{:?}", e.map(chain));
                match s(&obs["err"]) {
                    "no" => self.check("err", node, Some("None".into()), got),
                    "src" => {
                        let own = inst.subj.error().unwrap();
                        let ok = e.is_some_and(|e| same_chain(&chain(own), &chain(e), false));
                        self.check_if("err", node, ok, || format!("{:?}", chain(own)), got);
                        let at = e.map(|e| e as *const _ as *const u8 as usize);
                        if at.is_some() && at != Some(inst.subj.at()) {
                            self.fail("err", node, "the captured error".into(), "another one".into());
                        }
                    }
                    "buf" => {
                        let own = inst.subj.error().unwrap();
                        let ok = e.is_some_and(|e| same_chain(&chain(own), &chain(e), true));
                        self.check_if("err", node, ok, || format!("{:?}", chain(own)), got);
                    }
                    _ => (),
                }
            }
        }

        if self.digest {
            let path = format!("{}|{}|{}|{}", self.src.key, self.route, self.mode, self.path.join("/"));
            let exp = |g: usize| -> u64 {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                match GROUPS[g] {
                    "serde" | "sval" | "seq" | "err" => obs[GROUPS[g]].to_string().hash(&mut h),
                    "text" => (obs["cast"]["str"].to_string(), obs["seq"].to_string(), cfg!(feature = "seq")).hash(&mut h),
                    _ => {
                        for k in ["cast", "empty", "down", "dbg", "dsp", "visit", "own"] {
                            obs[k].to_string().hash(&mut h)
                        }
                    }
                }
                h.finish()
            };
            let row = (0..GROUPS.len()).map(|g| if ENABLED[g] { (exp(g), self.hashes[g].finish()) } else { (0, 0) }).collect();
            self.rep.digests.insert(path, row);
        }
        let digest = std::mem::replace(&mut self.digest, false);
        #[cfg(feature = "test")]
        if self.want.token && obs["token"] != "na" {
            self.token(bag, node);
        }
        if self.want.why {
            self.why(bag, node);
        }
        if self.want.touch && obs["touch"] == 0 {
            self.op = "touch";
            let c0 = SRC_CALLS.with(|c| c.get());
            self.poke(bag);
            let c1 = SRC_CALLS.with(|c| c.get());
            self.check_if("touch", node, c1 == c0, || "source not called".into(), format!("{} calls", c1 - c0));
        }
        if self.want.faults && self.faults && self.path.len() <= 3 {
            self.fault(bag, node);
        }
        self.digest = digest;
    }

    /// What a failing operation says about it.
    fn why(&mut self, bag: &ValueBag, node: usize) {
        let obs = &self.src.nodes[node].obs;
        let supplier = if self.route == "fill_fail_fmt" { fmt::Error.to_string() } else { "no content".to_owned() };
        let good = |why: &str, got: &str| match why {
            "own" => got == "told to fail",
            "supplier" => got == supplier,
            "text" => !got.is_empty(),
            _ => true,
        };
        #[cfg(feature = "serde")]
        {
            let mut rec = Rec::new(None);
            let e = self.run("why-serde", node, || serde::Serialize::serialize(bag, &mut rec).err());
            if let Some(RecErr(got)) = e {
                let why = s(&obs["why"]["serde"]);
                self.check_if("why-serde", node, good(why, &got), || why.into(), got);
            }
        }
        let mut seen = Seen::default();
        let r = self.run("why-visit", node, || bag.visit(Full_(&mut seen)));
        if let Err(e) = r {
            let (why, got) = (s(&obs["why"]["visit"]), e.to_string());
            self.check_if("why-visit", node, good(why, &got), || why.into(), got);
        }
        if self.inst.ty() == "badfill" && self.path.is_empty() {
            for how in 0..STOPS.len() {
                let text = if cfg!(feature = "std") || how == 3 { STOPS[how] } else { STOPS[0] };
                let got = stop(how as u8).to_string();
                self.check_if("why-text", node, got == text, || text.into(), got);
            }
        }
    }

    /// The token names what is stored.
    #[cfg(feature = "test")]
    fn token(&mut self, bag: &ValueBag, node: usize) {
        use value_bag::test::TestToken as T;
        let obs = &self.src.nodes[node].obs;
        let inst = self.inst;
        let leaf = inst.leaf.as_ref().map(|l| l.widened());
        let want = s(&obs["token"]);
        let got = self.run("token", node, || bag.to_test_token());
        let is = |v: LV| leaf.as_ref().is_some_and(|l| l.same(&v));
        let ok = match (want, &got) {
            ("i64" | "i*", T::I64(v)) => is(LV::I(*v as i128)),
            ("u64" | "u*", T::U64(v)) => is(LV::U(*v as u128)),
            ("i128" | "i*", T::I128(v)) => is(LV::I(*v)),
            ("u128" | "u*", T::U128(v)) => is(LV::U(*v)),
            ("float", T::F64(v)) => is(LV::F(*v)),
            ("bool", T::Bool(v)) => is(LV::Bool(*v)),
            ("char", T::Char(v)) => is(LV::Char(*v)),
            ("str", T::Str(v)) => is(LV::Str(v.clone())),
            ("t:D", T::Str(v)) => *v == format!("{:?}", inst.subj.debug()),
            ("t:P", T::Str(v)) => *v == format!("{}", inst.subj.display().unwrap()),
            ("t:?", T::Str(v)) => !v.is_empty(),
            ("none", T::None) => true,
            #[cfg(feature = "error")]
            ("error", T::Error) => true,
            #[cfg(feature = "sval")]
            ("sval", T::Sval { version: 2, .. }) => true,
            #[cfg(feature = "serde")]
            ("serde", T::Serde { version: 1, .. }) => true,
            #[cfg(feature = "seq")]
            ("seq", T::Seq) => true,
            ("poison", T::Poisoned(v)) => !v.is_empty(),
            _ => false,
        };
        self.check_if("token", node, ok, || format!("{want} {leaf:?}"), format!("{got:?}"));
    }

    fn casts(&mut self, bag: &ValueBag, node: usize) {
        let n = &self.src.nodes[node];
        let obs = &n.obs;
        let inst = self.inst;
        let cast = &obs["cast"];
        let leaf = inst.leaf.clone();
        let num = |ty: &str| -> Option<String> {
            match cast[ty].as_i64().unwrap() {
                2 => None,
                0 => Some("None".into()),
                _ => Some(match leaf.as_ref().unwrap() {
                    LV::U(v) => format!("Some({v})"),
                    LV::I(v) => format!("Some({v})"),
                    v => format!("Some({v:?})"),
                }),
            }
        };
        macro_rules! ints {
            ($($t:ident)*) => {$(
                let got = self.run(stringify!($t), node, || format!("{:?}", <$t>::try_from(bag.clone()).ok()));
                self.check(stringify!($t), node, num(stringify!($t)), got);
            )*};
        }
        ints!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);
        macro_rules! to {
            ($($f:ident $t:literal)*) => {$(
                let got = self.run(stringify!($f), node, || format!("{:?}", bag.$f()));
                self.check(stringify!($f), node, num($t), got);
            )*};
        }
        to!(to_u64 "u64" to_i64 "i64" to_u128 "u128" to_i128 "i128");

        let as_f = match &leaf {
            Some(LV::U(v)) => *v as f64,
            Some(LV::I(v)) => *v as f64,
            Some(LV::F(v)) => *v,
            Some(LV::F32(v)) => *v as f64,
            _ => f64::NAN,
        };
        let f64e = match cast["f64"].as_i64().unwrap() {
            2 => None,
            0 => Some("None".to_string()),
            _ => Some(show_f64(as_f)),
        };
        let showo = |v: Option<f64>| v.map(show_f64).unwrap_or("None".into());
        let got = self.run("to_f64", node, || bag.to_f64());
        self.check("to_f64", node, f64e.clone(), showo(got));
        let got = self.run("f64", node, || f64::try_from(bag.clone()).ok());
        self.check("f64", node, f64e, showo(got));
        let got = self.run("as_f64", node, || bag.as_f64());
        let exp = match cast["asf"].as_i64().unwrap() {
            2 => None,
            0 => Some("NaN".into()),
            _ => Some(show_f64(as_f)),
        };
        self.check("as_f64", node, exp, show_f64(got));

        let plain = |ty: &str| -> Option<String> {
            match cast[ty].as_i64().unwrap() {
                2 => None,
                0 => Some("None".into()),
                _ => Some(match leaf.as_ref().unwrap() {
                    LV::Bool(v) => format!("{:?}", Some(*v)),
                    LV::Char(v) if ty == "char" => format!("{:?}", Some(*v)),
                    LV::Char(v) => format!("{:?}", Some(v.to_string())),
                    LV::Str(v) => format!("{:?}", Some(v)),
                    v => format!("{v:?}"),
                }),
            }
        };
        let got = self.run("to_bool", node, || format!("{:?}", bag.to_bool()));
        self.check("to_bool", node, plain("bool"), got);
        let got = self.run("bool", node, || format!("{:?}", bool::try_from(bag.clone()).ok()));
        self.check("bool", node, plain("bool"), got);
        let got = self.run("to_char", node, || format!("{:?}", bag.to_char()));
        self.check("to_char", node, plain("char"), got);
        let got = self.run("char", node, || format!("{:?}", char::try_from(bag.clone()).ok()));
        self.check("char", node, plain("char"), got);
        #[cfg(feature = "alloc")]
        {
            self.group = 1;
            let got = self.run("to_str", node, || format!("{:?}", bag.to_str()));
            self.check("to_str", node, plain("str"), got);
            let got = self.run("string", node, || format!("{:?}", String::try_from(bag.clone()).ok()));
            self.check("string", node, plain("str"), got);
            let got =
                self.run("cow", node, || format!("{:?}", std::borrow::Cow::<str>::try_from(bag.clone()).ok()));
            self.check("cow", node, plain("str"), got);
            self.group = 0;
        }
        for (op, got) in [
            ("to_borrowed_str", self.run("to_borrowed_str", node, || bag.to_borrowed_str())),
            ("str", self.run("str", node, || <&str>::try_from(bag.clone()).ok())),
        ] {
            self.check(op, node, plain("bstr"), format!("{got:?}"));
            if let Some(t) = got {
                let at = (t.as_ptr() as usize, t.len());
                if t.is_empty() {
                    continue;
                }
                let own = obs["own"] == 1;
                if cast["bstr"] == 1 && !own && Some(at) != inst.text {
                    self.fail(op, node, "the source's own memory".into(), "a copy".into());
                }
                if own && inst.texts.iter().any(|(a, l)| at.0 >= *a && at.0 < a + l) {
                    self.fail(op, node, "memory of the owned value".into(), "memory of the source".into());
                }
            }
        }

    }

    /// Emptiness and type identity.
    fn identity(&mut self, bag: &ValueBag, node: usize) {
        let n = &self.src.nodes[node];
        let obs = &n.obs;
        let inst = self.inst;
        let got = self.run("empty", node, || bag.is_empty() as u8);
        self.check("empty", node, Some(obs["empty"].to_string()), got.to_string());
        let (ptr, is) = self.run("down", node, || inst.subj.down(bag));
        match s(&obs["down"]) {
            "no" => self.check_if("down", node, ptr.is_none() && !is, || "nothing".into(), format!("{} {is}", ptr.is_some())),
            "src" => {
                let shared = n.f == "arc" || n.f == "aref" || n.f == "local";
                let want = if !shared { Some(inst.subj.at()) } else { self.shared_at };
                let mut text = String::new();
                let _ = write!(text, "{:?}", inst.subj.debug());
                let ok = match &ptr {
                    None => false,
                    Some((at, t)) => is && want.map_or(true, |w| w == *at) && (t == &text || inst.ty() == "txt"),
                };
                if shared && self.shared_at.is_none() {
                    self.shared_at = ptr.as_ref().map(|p| p.0);
                }
                self.check_if("down", node, ok, || "the captured object".into(), format!("{} {is}", ptr.is_some()));
            }
            _ => (),
        }
        macro_rules! foreign {
            ($($t:ty),*) => {{
                let mut hits = vec![];
                $(if inst.subj.tid() != TypeId::of::<$t>() && (bag.is::<$t>() || bag.downcast_ref::<$t>().is_some()) {
                    hits.push(stringify!($t));
                })*
                hits
            }};
        }
        let hits = self.run("foreign", node, || {
            foreign!(Obj<0>, Obj<1>, Txt, ErrObj, u8, i32, u64, i64, u128, f64, bool, char, String, &'static str, (), Vec<u8>, Option<u64>, El)
        });
        self.check_if("foreign", node, hits.is_empty(), || "no other type".into(), format!("{hits:?}"));

    }

    fn formats(&mut self, bag: &ValueBag, node: usize) {
        let n = &self.src.nodes[node];
        let obs = &n.obs;
        let inst = self.inst;
        for dbg in [true, false] {
            let op = if dbg { "dbg" } else { "dsp" };
            let mut syms = BTreeSet::new();
            symbols(obs, dbg, &mut syms);
            let open = ["OPEN", "EXPL", "SEX", "POISON"].iter().any(|x| syms.contains(*x));
            let errs = syms.contains("ERR");
            let text = syms.contains("TD") || syms.contains("TP");
            for i in 0..FLAGS {
                if i > 1 && (text || open || self.path.len() > 2) {
                    break;
                }
                // a negative number in hexadecimal shows its width, which is not kept
                if i >= HEX && dbg && inst.negative() {
                    break;
                }
                let mut sink = Sink::default();
                let ok = self.run(op, node, || {
                    if dbg {
                        fmt_dbg(&mut sink, i, bag)
                    } else {
                        fmt_dsp(&mut sink, i, bag)
                    }
                });
                let got = match ok {
                    Ok(()) => sink.text.clone(),
                    Err(_) => "<formatting failed>".into(),
                };
                if errs {
                    self.check_if(op, node, ok.is_err(), || "formatting fails".into(), got);
                } else if open {
                    let must = syms.contains("POISON") || ((syms.contains("EXPL") || syms.contains("SEX")) && !syms.contains("OPEN"));
                    self.check_if(op, node, !must || (ok.is_ok() && !sink.text.is_empty()), || "some text".into(), got);
                } else {
                    let show = Show { inst, obs, dbg };
                    let mut want = Sink::default();
                    let e = if dbg { fmt_dbg(&mut want, i, &show) } else { fmt_dsp(&mut want, i, &show) };
                    let exp = match e {
                        Ok(()) => want.text,
                        Err(_) => "<cannot render>".into(),
                    };
                    self.check(op, node, Some(exp), got);
                }
            }
        }

    }

    /// Use every kind of operation once, ignoring the answers.
    fn poke(&mut self, bag: &ValueBag) {
        let _ = (bag.to_i64(), bag.to_u64(), bag.to_i128(), bag.to_f64(), bag.as_f64(), bag.to_bool(), bag.to_char());
        let _ = (bag.to_borrowed_str(), bag.is_empty(), bag.is::<String>());
        let mut t = String::new();
        let _ = write!(t, "{bag:?} {bag} {bag:#?}");
        let mut seen = Seen::default();
        let _ = bag.visit(Full_(&mut seen));
        #[cfg(feature = "serde")]
        let _ = serde::Serialize::serialize(bag, &mut Rec::new(None));
        #[cfg(feature = "sval")]
        let _ = stream_to(bag, &mut Rec::new(None), false);
        #[cfg(feature = "seq")]
        let _: Option<Vec<Option<u64>>> = bag.to_u64_seq();
        #[cfg(feature = "error")]
        let _ = bag.to_borrowed_error().map(chain);
    }

    fn output(&mut self, op: &'static str, form: &'static str, node: usize, ok: bool, rec: &Rec) {
        let n = &self.src.nodes[node];
        let exp = &n.obs[op];
        let got = format!("{} {}", if ok { "ok" } else { "err" }, show(&rec.toks));
        match s(&exp["res"]) {
            "ok" => {
                let want = expected_toks(self.inst, &n.obs, op);
                self.check_if(op, node, ok && toks_eq(&want, &rec.toks), || format!("ok {}", show(&want)), got);
                self.check_if(
                    form,
                    node,
                    rec.bad.is_empty() && rec.complete(),
                    || "one well-formed value".into(),
                    format!("{:?} complete={}", rec.bad, rec.complete()),
                );
            }
            "err" => {
                let want = expected_toks(self.inst, &n.obs, op);
                // across frameworks only a part of the output may have been handed on
                let crossing = (op == "serde" && n.v == "sval")
                    || (op == "sval" && n.v == "serde")
                    || n.v == "seq"
                    || self.src.key.contains("\"k\":\"bag\"");
                let data = if crossing {
                    rec.toks.len() <= want.len() && toks_eq(&want[..rec.toks.len()], &rec.toks)
                } else {
                    toks_eq(&want, &rec.toks)
                };
                self.check_if(op, node, !ok && data, || format!("err {}", show(&want)), got);
            }
            _ => {
                if self.digest {
                    (op, &got).hash(&mut self.hashes[self.group]);
                }
            }
        }
    }

    #[allow(dead_code)]
    fn borrows(&mut self, node: usize, rec: &Rec) {
        let n = &self.src.nodes[node];
        let live = n.o == "src" && !n.d && matches!(n.f.as_str(), "plain" | "cap" | "sized" | "anon");
        let mut bad = None;
        for (at, len) in rec.borrowed.iter().filter(|b| b.1 > 0) {
            let inside = self.inst.texts.iter().any(|(a, l)| at >= a && at + len <= a + l);
            if live && matches!(n.v.as_str(), "str" | "sval") && !inside {
                bad = Some("text marked as borrowed is not the source's");
            }
            if n.o == "buf" && inside {
                bad = Some("a buffered value points into the source");
            }
        }
        let want = live && matches!(n.v.as_str(), "str") && rec.computed > 0;
        if want {
            bad = Some("captured text is streamed as a temporary copy");
        }
        self.check_if("sval-borrow", node, bad.is_none(), || "borrowed text is the source's".into(), bad.unwrap_or("ok").into());
    }

    fn visits(&mut self, bag: &ValueBag, node: usize) {
        let n = &self.src.nodes[node];
        let obs = &n.obs;
        let want = s(&obs["visit"]).to_string();
        let leaf = self.inst.leaf.as_ref().map(|l| l.widened());
        let own = obs["own"] == 1;

        for pass in 0..2 {
            let op = if pass == 0 { "visit" } else { "visit-ref" };
            let mut seen = Seen::default();
            let r = self.run(op, node, || {
                if pass == 0 {
                    bag.visit(Full_(&mut seen))
                } else {
                    let mut v = Full_(&mut seen);
                    bag.visit(&mut v)
                }
            });
            let got = format!("{}{}", seen.show(), if r.is_ok() { "" } else { " Err" });
            if want == "open" {
                if self.digest {
                    (op, &got).hash(&mut self.hashes[self.group]);
                }
                continue;
            }
            if want == "late" {
                self.check_if(op, node, r.is_err() && seen.calls.len() <= 1, || "Err".into(), got);
                continue;
            }
            if want == "ERR" {
                self.check_if(op, node, r.is_err() && seen.calls.is_empty(), || "Err, no callback".into(), got);
                continue;
            }
            let one = seen.calls.len() == 1 && r.is_ok();
            let (cb, data) = seen.calls.first().cloned().unwrap_or(("nothing", None));
            let cb_ok = match want.as_str() {
                "u*" => cb == "u64" || cb == "u128",
                "i*" => cb == "i64" || cb == "i128",
                "str?" => cb == "str" || cb == "bstr",
                "error?" => cb == "error" || cb == "berror",
                w => cb == w,
            };
            let data_ok = match cb {
                "any" | "empty" => true,
                "error" | "berror" => {
                    let own = self.inst.subj.error().map(chain);
                    matches!((&own, &seen.chain), (Some(a), Some(b)) if same_chain(a, b, n.o == "buf"))
                }
                "str" | "bstr" => {
                    let text = match &leaf {
                        Some(LV::Char(c)) => Some(LV::Str(c.to_string())),
                        l => l.clone(),
                    };
                    matches!((&text, &data), (Some(a), Some(b)) if a.same(b))
                }
                _ => matches!((&leaf, &data), (Some(a), Some(b)) if a.same(b)),
            };
            let at_ok = match (cb, seen.at) {
                ("bstr", Some(at)) if at.1 > 0 && want == "bstr" => {
                    if own {
                        !self.inst.texts.iter().any(|(a, l)| at.0 >= *a && at.0 < a + l)
                    } else {
                        Some(at) == self.inst.text
                    }
                }
                ("berror", Some(at)) if obs["err"] == "src" => at.0 == self.inst.subj.at(),
                _ => true,
            };
            self.check_if(op, node, one && cb_ok && data_ok && at_ok, || format!("{want}={leaf:?};"), format!("{got} at={at_ok}"));
        }
        if matches!(want.as_str(), "ERR" | "open" | "late") {
            return;
        }

        // callbacks that are not overridden
        let mut seen = Seen::default();
        let mut inner = Seen::default();
        let r = self.run("visit-any", node, || bag.visit(AnyOnly(&mut seen, &mut inner)));
        let one = r.is_ok() && seen.calls.len() == 1 && inner.calls.len() == 1;
        let (cb, data) = inner.calls.first().cloned().unwrap_or(("nothing", None));
        let kind = |c: &str| match c {
            "u64" | "u128" | "u*" => "uint",
            "i64" | "i128" | "i*" => "int",
            "str" | "bstr" | "str?" => "text",
            "error" | "berror" | "error?" => "error",
            "any" => "any",
            "empty" => "empty",
            "f64" => "f64",
            "bool" => "bool",
            "char" => "char",
            _ => "nothing",
        };
        // an unhandled character arrives as text
        let kind_ok = kind(cb) == kind(&want) || (want == "char" && kind(cb) == "text");
        let data_ok = match kind(cb) {
            "any" | "empty" => true,
            "error" => {
                let own = self.inst.subj.error().map(chain);
                matches!((&own, &inner.chain), (Some(a), Some(b)) if same_chain(a, b, n.o == "buf"))
            }
            "text" => {
                let text = match &leaf {
                    Some(LV::Char(c)) => Some(LV::Str(c.to_string())),
                    l => l.clone(),
                };
                matches!((&text, &data), (Some(a), Some(b)) if a.same(b))
            }
            _ => matches!((&leaf, &data), (Some(a), Some(b)) if a.same(b)),
        };
        let got = format!("{} / {}", seen.show(), inner.show());
        self.check_if("visit-any", node, one && kind_ok && data_ok, || format!("any; / {want}={leaf:?}"), got);

        let mut seen = Seen::default();
        let r = self.run("visit-str", node, || bag.visit(AnyStr(&mut seen)));
        let texty = matches!(kind(&want), "text" | "char");
        let (cb, data) = seen.calls.first().cloned().unwrap_or(("nothing", None));
        let ok = r.is_ok() && seen.calls.len() == 1 && if texty {
            let text = match &leaf {
                Some(LV::Char(c)) => Some(LV::Str(c.to_string())),
                l => l.clone(),
            };
            cb == "str" && matches!((&text, &data), (Some(a), Some(b)) if a.same(b))
        } else {
            cb == "any"
        };
        let got = seen.show();
        self.check_if("visit-str", node, ok, || if texty { "str".into() } else { "any".into() }, got);

        // a callback that fails
        for how in [0, 1, 2, 3] {
            // two of them exist only with the standard library: not for comparing builds
            if how > 0 && (how as usize != 1 + self.path.len() % 3 || self.digest) {
                continue;
            }
            let mut seen = Seen { fail: Some(how), ..Seen::default() };
            let r = self.run("visit-err", node, || bag.visit(Full_(&mut seen)));
            let text = if cfg!(feature = "std") || how == 3 { STOPS[how as usize] } else { STOPS[0] };
            let ok = seen.calls.len() == 1 && matches!(&r, Err(e) if e.to_string() == text);
            let got = format!("{} {:?}", seen.show(), r.map_err(|e| e.to_string()));
            self.check_if("visit-err", node, ok, || format!("one callback, then its error: {text}"), got);
        }
    }

    #[cfg(feature = "seq")]
    fn sequences(&mut self, bag: &ValueBag, node: usize) {
        let n = &self.src.nodes[node];
        let seq = &n.obs["seq"];
        let kind = s(&seq["kind"]).to_string();
        let els = seq["els"].as_array().unwrap();
        // data of the elements
        let data: Vec<(Option<LV>, Option<(usize, usize)>)> = match self.inst.subj.term() {
            Some(t) => t.elements().iter().map(|e| (e.leaf(), e.text_at())).collect(),
            None => self.inst.els.iter().map(|e| (e.leaf.clone(), e.text)).collect(),
        };
        let float = |ty: &str| matches!(ty, "f64" | "asf");
        let fields = |ty: &str| -> Vec<Option<Option<String>>> {
            // per element: None = open, Some(None) = absent, Some(Some(text)) = value
            els.iter()
                .zip(&data)
                .map(|(e, (leaf, _))| match e[ty].as_i64().unwrap() {
                    2 => None,
                    0 => Some(None),
                    _ => Some(Some(match leaf.as_ref().unwrap() {
                        LV::U(v) if float(ty) => show_f64(*v as f64),
                        LV::I(v) if float(ty) => show_f64(*v as f64),
                        LV::U(v) => v.to_string(),
                        LV::I(v) => v.to_string(),
                        LV::F(v) => show_f64(*v),
                        LV::F32(v) => show_f64(*v as f64),
                        LV::Bool(v) => v.to_string(),
                        LV::Char(v) => format!("{v}"),
                        LV::Str(v) => v.clone(),
                        v => format!("{v:?}"),
                    })),
                })
                .collect()
        };
        let judge = |got: &Option<Vec<Option<String>>>, ty: &str| -> (bool, String) {
            match kind.as_str() {
                "open" => (true, "open".into()),
                "no" => (got.is_none(), "None".into()),
                _ => {
                    let want = fields(ty);
                    let ok = match got {
                        None => false,
                        Some(g) => {
                            g.len() == want.len() && g.iter().zip(&want).all(|(g, w)| w.as_ref().map_or(true, |w| w == g))
                        }
                    };
                    (ok, format!("{want:?}"))
                }
            }
        };
        macro_rules! seqs {
            ($($f:ident $t:ty, $ty:literal, $v:ident => $show:expr;)*) => {$(
                let got = self.run("seq", node, || bag.$f::<Vec<Option<$t>>>())
                    .map(|g| g.into_iter().map(|x| x.map(|$v| $show)).collect::<Vec<_>>());
                let (ok, want) = judge(&got, $ty);
                self.check_if("seq", node, ok, || concat!(stringify!($f), " ").to_string() + &want, format!("{got:?}"));
            )*};
        }
        seqs! {
            to_u64_seq u64, "u64", v => v.to_string();
            to_i64_seq i64, "i64", v => v.to_string();
            to_u128_seq u128, "u128", v => v.to_string();
            to_i128_seq i128, "i128", v => v.to_string();
            to_f64_seq f64, "f64", v => show_f64(v);
            to_bool_seq bool, "bool", v => v.to_string();
            to_char_seq char, "char", v => v.to_string();
            to_borrowed_str_seq &str, "bstr", v => v.to_string();
        }
        #[cfg(feature = "alloc")]
        {
            self.group = 1;
            seqs! {
                to_str_seq std::borrow::Cow<'_, str>, "str", v => v.into_owned();
            }
            self.group = 4;
        }
        // lenient floats: always a list
        let got: Vec<f64> = self.run("seq", node, || bag.as_f64_seq());
        if kind != "open" {
            let want = fields("asf");
            let ok = if kind == "no" {
                got.is_empty()
            } else {
                got.len() == want.len()
                    && got.iter().zip(&want).all(|(g, w)| match w {
                        None => true,
                        Some(None) => g.is_nan(),
                        Some(Some(t)) => &show_f64(*g) == t,
                    })
            };
            self.check_if("seq", node, ok, || format!("as_f64_seq {want:?}"), format!("{got:?}"));
        }
        // borrowed text comes from the source
        if kind == "yes" && n.o == "src" && !n.d {
            if let Some(got) = bag.to_borrowed_str_seq::<Vec<Option<&str>>>() {
                for ((g, e), (_, at)) in got.iter().zip(els).zip(&data) {
                    if let (Some(g), Some(1)) = (g, e["bstr"].as_i64()) {
                        if !g.is_empty() && Some((g.as_ptr() as usize, g.len())) != *at {
                            self.fail("seq", node, "borrowed text of the source".into(), "a copy".into());
                        }
                    }
                }
            }
        }
    }

    /// Let the consumer fail at every step.
    fn fault(&mut self, bag: &ValueBag, node: usize) {
        let cap = 40;
        #[cfg(feature = "serde")]
        {
            let mut base = Rec::new(None);
            let _ = serde::Serialize::serialize(bag, &mut base);
            for k in 0..base.calls.len().min(cap) {
                let mut rec = Rec::new(Some(k));
                self.op = "fault-serde";
                let r = serde::Serialize::serialize(bag, &mut rec);
                let ok = r.is_ok();
                self.rep.faults += 1;
                if let (Err(RecErr(got)), "own") = (r, s(&self.src.nodes[node].obs["why"]["fault"])) {
                    self.check_if("why-fault", node, got == INJECTED, || INJECTED.into(), got);
                }
                let good = !ok && !rec.after_fail && rec.calls == base.calls[..=k];
                self.check_if("fault-serde", node, good, || format!("stops at call {k} of {:?}", base.calls), format!("ok={ok} {:?}", rec.calls));
            }
        }
        #[cfg(feature = "sval")]
        {
            for by_ref in [true, false] {
                let mut base = Rec::new(None);
                stream_to(bag, &mut base, by_ref);
                for k in 0..base.calls.len().min(cap) {
                    let mut rec = Rec::new(Some(k));
                    self.op = "fault-sval";
                    let ok = stream_to(bag, &mut rec, by_ref);
                    self.rep.faults += 1;
                    let good = !ok && !rec.after_fail && rec.calls == base.calls[..=k];
                    self.check_if("fault-sval", node, good, || format!("stops at call {k} of {:?}", base.calls), format!("ok={ok} {:?}", rec.calls));
                }
            }
        }
        for dbg in [true, false] {
            for i in [0, 1] {
                let mut base = Sink::default();
                let f = |sink: &mut Sink| if dbg { fmt_dbg(sink, i, bag) } else { fmt_dsp(sink, i, bag) };
                let _ = f(&mut base);
                // the serde formatter describes a failed write in the output it has left
                let mut syms = BTreeSet::new();
                symbols(&self.src.nodes[node].obs, dbg, &mut syms);
                let quiet = !["SE", "SEX", "OPEN"].iter().any(|x| syms.contains(*x));
                for k in 0..base.writes.min(cap) {
                    let mut sink = Sink { fail_at: Some(k), ..Sink::default() };
                    self.op = "fault-fmt";
                    let ok = f(&mut sink).is_ok();
                    self.rep.faults += 1;
                    let good = !ok && !(quiet && sink.after_fail) && base.text.starts_with(&sink.text);
                    self.check_if("fault-fmt", node, good, || format!("stops at write {k}"), format!("ok={ok} after={} {}", sink.after_fail, sink.text));
                }
            }
        }
    }

    /// Creating handles must not run a supplier; buffering runs it once.
    fn make<T>(&mut self, action: &str, node: usize, f: impl FnOnce() -> T) -> T {
        self.node = node;
        self.op = "runs";
        let r0 = RUNS.with(|c| c.get());
        let v = f();
        let k = RUNS.with(|c| c.get()) - r0;
        let d = self.src.nodes[node].obs["runs"].as_u64().unwrap();
        let want = if matches!(action, "to_owned" | "to_shared") { d } else { 0 };
        if self.inst.ty() != "slice" && k != want {
            self.fail("runs", node, format!("{want} supplier runs in {action}"), format!("{k}"));
        }
        v
    }

    pub fn bag(&mut self, bag: &ValueBag, node: usize) {
        self.down.push(HashSet::new());
        self.observe(bag, node);
        if self.seen.insert(node) {
            self.rep.nodes_hit += 1;
            for (a, to) in &self.src.nodes[node].next {
                self.step_bag(bag, node, a, *to);
            }
        } else {
            self.rep.traces += 1;
        }
        self.down.pop();
    }

    fn step_bag(&mut self, bag: &ValueBag, node: usize, a: &str, to: usize) {
        self.path.push(a.to_string());
        match a {
            "by_ref" => {
                let b = self.make(a, node, || bag.by_ref());
                self.bag(&b, to);
            }
            "clone" => {
                let b = self.make(a, node, || bag.clone());
                self.bag(&b, to);
            }
            #[cfg(feature = "owned")]
            "to_owned" => {
                let b = self.make(a, node, || bag.to_owned());
                self.own(&b, to);
            }
            #[cfg(feature = "owned")]
            "to_shared" => {
                let b = self.make(a, node, || bag.to_shared());
                self.own(&b, to);
            }
            "visit_any" => {
                let mut go = |b: &ValueBag| self.bag(b, to);
                let mut sub = Sub(&mut go, 0);
                let r = bag.visit(&mut sub);
                let k = sub.1;
                if k != 1 || r.is_err() {
                    self.fail("visit", node, "one catch-all callback".into(), format!("{k} callbacks"));
                }
            }
            "defer" => {
                let f = supplier(bag);
                let b = self.make(a, node, || ValueBag::from_fill(&f));
                self.bag(&b, to);
            }
            a => panic!("unknown action {a}"),
        }
        self.path.pop();
    }

    #[cfg(feature = "owned")]
    pub fn own(&mut self, own: &value_bag::OwnedValueBag, node: usize) {
        self.down.push(HashSet::new());
        self.observe_own(own, node);
        if self.seen.insert(node) {
            self.rep.nodes_hit += 1;
            for (a, to) in &self.src.nodes[node].next {
                self.step_own(own, node, a, *to);
            }
        } else {
            self.rep.traces += 1;
        }
        self.down.pop();
    }

    #[cfg(feature = "owned")]
    fn step_own(&mut self, own: &value_bag::OwnedValueBag, node: usize, a: &str, to: usize) {
        self.path.push(a.to_string());
        match a {
            "own_by_ref" => {
                let b = self.make(a, node, || own.by_ref());
                self.bag(&b, to);
            }
            "own_into" => {
                let b = self.make(a, node, || ValueBag::from(own));
                self.bag(&b, to);
            }
            "own_clone" => {
                let b = self.make(a, node, || own.clone());
                self.own(&b, to);
            }
            "into_shared" => {
                let b = self.make(a, node, || own.clone().into_shared());
                self.own(&b, to);
            }
            a => panic!("unknown action {a}"),
        }
        self.path.pop();
    }

    /// An owned handle formats and serializes by itself.
    #[cfg(feature = "owned")]
    fn observe_own(&mut self, own: &value_bag::OwnedValueBag, node: usize) {
        let n = &self.src.nodes[node];
        let obs = &n.obs;
        let inst = self.inst;
        let digest = std::mem::replace(&mut self.digest, false);
        for dbg in [true, false] {
            if !self.want.fmt {
                break;
            }
            let op = if dbg { "dbg" } else { "dsp" };
            let mut syms = BTreeSet::new();
            symbols(obs, dbg, &mut syms);
            let open = ["OPEN", "EXPL", "SEX", "POISON"].iter().any(|x| syms.contains(*x));
            let errs = syms.contains("ERR");
            for i in 0..2 {
                let mut sink = Sink::default();
                let ok = self.run(op, node, || if dbg { fmt_dbg(&mut sink, i, own) } else { fmt_dsp(&mut sink, i, own) });
                if open {
                    continue;
                }
                if errs {
                    self.check_if(op, node, ok.is_err(), || "formatting fails".into(), sink.text.clone());
                    continue;
                }
                let show = Show { inst, obs, dbg };
                let mut want = Sink::default();
                let _ = if dbg { fmt_dbg(&mut want, i, &show) } else { fmt_dsp(&mut want, i, &show) };
                let got = if ok.is_ok() { sink.text } else { "<formatting failed>".into() };
                self.check(op, node, Some(want.text), got);
            }
        }
        #[cfg(feature = "serde")]
        if self.want.serde {
            let mut rec = Rec::new(None);
            let ok = self.run("serde", node, || serde::Serialize::serialize(own, &mut rec).is_ok());
            self.output("serde", "serde-form", node, ok, &rec);
        }
        #[cfg(feature = "sval")]
        if self.want.sval {
            let mut rec = Rec::new(None);
            let ok = self.run("sval", node, || sval::Value::stream(own, &mut rec).is_ok());
            self.output("sval", "sval-form", node, ok, &rec);
        }
        self.digest = digest;
    }

    /// A random walk from a fresh capture.
    pub fn random(&mut self, bag: &ValueBag, node: usize, rng: &mut Rng, left: u32) {
        self.down.push(HashSet::new());
        if !self.path.is_empty() {
            self.observe(bag, node);
        }
        if left > 0 && !self.src.nodes[node].next.is_empty() {
            let (a, to) = rng.pick(&self.src.nodes[node].next).clone();
            self.path.push(a.clone());
            match a.as_str() {
                "by_ref" => self.random(&bag.by_ref(), to, rng, left - 1),
                "clone" => self.random(&bag.clone(), to, rng, left - 1),
                #[cfg(feature = "owned")]
                "to_owned" => self.random_own(&bag.to_owned(), to, rng, left - 1),
                #[cfg(feature = "owned")]
                "to_shared" => self.random_own(&bag.to_shared(), to, rng, left - 1),
                "visit_any" => {
                    let mut go = |b: &ValueBag| self.random(b, to, rng, left - 1);
                    let _ = bag.visit(Sub(&mut go, 0));
                }
                "defer" => {
                    let f = supplier(bag);
                    self.random(&ValueBag::from_fill(&f), to, rng, left - 1)
                }
                a => panic!("unknown action {a}"),
            }
            self.path.pop();
        }
        self.down.pop();
    }

    #[cfg(feature = "owned")]
    fn random_own(&mut self, own: &value_bag::OwnedValueBag, node: usize, rng: &mut Rng, left: u32) {
        self.down.push(HashSet::new());
        self.observe_own(own, node);
        if left > 0 {
            let (a, to) = rng.pick(&self.src.nodes[node].next).clone();
            self.path.push(a.clone());
            match a.as_str() {
                "own_by_ref" => self.random(&own.by_ref(), to, rng, left - 1),
                "own_into" => self.random(&ValueBag::from(own), to, rng, left - 1),
                "own_clone" => self.random_own(&own.clone(), to, rng, left - 1),
                "into_shared" => self.random_own(&own.clone().into_shared(), to, rng, left - 1),
                a => panic!("unknown action {a}"),
            }
            self.path.pop();
        }
        self.down.pop();
    }
}
