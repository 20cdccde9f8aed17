//! Replays the behaviours of spec/Text.tla: text written in pieces, buffered and read back.
//!
//!   bag-text GRAPH OUT.json [--seed N] [--styles N]

use serde_json::json;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use value_bag::visit::Visit;
use value_bag::{Error, OwnedValueBag, ValueBag};

#[path = "../lv.rs"]
#[allow(dead_code)]
mod lv;
use lv::Rng;

/// Text that is written piece by piece.
struct Pieces {
    parts: Vec<String>,
    fails: bool,
    /// how each piece is written
    by: u64,
}

impl Pieces {
    fn whole(&self) -> String {
        self.parts.concat()
    }
    fn write(&self, f: &mut fmt::Formatter) -> fmt::Result {
        use fmt::Write;
        for (i, p) in self.parts.iter().enumerate() {
            match (self.by >> (2 * i)) & 3 {
                0 => f.write_str(p)?,
                1 => f.write_fmt(format_args!("{p}"))?,
                2 => p.chars().try_for_each(|c| f.write_char(c))?,
                _ => {
                    let at = (0..=p.len() / 2).rev().find(|i| p.is_char_boundary(*i)).unwrap_or(0);
                    write!(f, "{}{}", &p[..at], &p[at..])?
                }
            }
        }
        if self.fails {
            Err(fmt::Error)
        } else {
            Ok(())
        }
    }
}
impl fmt::Debug for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write(f)
    }
}
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write(f)
    }
}
impl std::error::Error for Pieces {}
impl<'a> From<&'a Pieces> for ValueBag<'a> {
    fn from(p: &'a Pieces) -> Self {
        if p.by & 1 == 0 {
            ValueBag::capture_display(p)
        } else {
            ValueBag::from_debug(p)
        }
    }
}
impl serde::Serialize for Pieces {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.by & 1 == 0 {
            s.collect_str(self)
        } else {
            s.serialize_str(&self.whole())
        }
    }
}
#[cfg(feature = "sval")]
impl sval::Value for Pieces {
    fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        s.text_begin(if self.by & 16 == 0 { None } else { Some(self.parts.iter().map(|p| p.len()).sum()) })?;
        for (i, p) in self.parts.iter().enumerate() {
            if (self.by >> i) & 1 == 0 {
                s.text_fragment(p)?;
            } else {
                s.text_fragment_computed(&p.clone())?;
            }
        }
        s.text_end()
    }
}

const ROUTES: &[&str] = &[
    "capture_debug", "capture_display", "from_debug", "from_display", "from_dyn_debug", "fill_display", "from_str", "into_string", "capture_str",
    #[cfg(feature = "error")]
    "capture_error",
    #[cfg(feature = "sval")]
    "capture_sval",
    #[cfg(feature = "sval")]
    "from_sval_str",
    #[cfg(feature = "serde")]
    "capture_serde",
    #[cfg(feature = "serde")]
    "from_serde_str",
    #[cfg(feature = "seq")]
    "seq",
    #[cfg(feature = "seq")]
    "seq_str",
];

/// Can be read as text by conversion, not only by formatting.
fn is_text(route: &str) -> bool {
    matches!(route, "from_str" | "into_string" | "capture_str" | "capture_sval" | "from_sval_str" | "capture_serde" | "from_serde_str")
}

struct Spell<'a>(&'a Pieces);
impl<'a> value_bag::fill::Fill for Spell<'a> {
    fn fill(&self, slot: value_bag::fill::Slot) -> Result<(), Error> {
        slot.fill_display(self.0)
    }
}

fn with<R>(route: &str, p: &'static Pieces, f: impl FnOnce(ValueBag) -> R) -> R {
    let whole = p.whole();
    match route {
        "capture_debug" => f(ValueBag::capture_debug(p)),
        "capture_display" => f(ValueBag::capture_display(p)),
        "from_debug" => f(ValueBag::from_debug(p)),
        "from_display" => f(ValueBag::from_display(p)),
        "from_dyn_debug" => f(ValueBag::from_dyn_debug(p)),
        "fill_display" => f(ValueBag::from_fill(&Spell(p))),
        "from_str" => f(ValueBag::from_str(&whole)),
        "into_string" => f(ValueBag::from(&whole)),
        "capture_str" => f(ValueBag::capture_debug(&whole)),
        #[cfg(feature = "error")]
        "capture_error" => f(ValueBag::capture_error(p)),
        #[cfg(feature = "sval")]
        "capture_sval" => f(ValueBag::capture_sval2(p)),
        #[cfg(feature = "sval")]
        "from_sval_str" => f(ValueBag::from_sval2(&whole)),
        #[cfg(feature = "serde")]
        "capture_serde" => f(ValueBag::capture_serde1(p)),
        #[cfg(feature = "serde")]
        "from_serde_str" => f(ValueBag::from_serde1(&whole)),
        #[cfg(feature = "seq")]
        "seq" => f(ValueBag::from_seq_slice(&[p])),
        #[cfg(feature = "seq")]
        "seq_str" => f(ValueBag::from_seq_slice(&[whole])),
        r => panic!("route {r}"),
    }
}

impl<'a> From<&'a &'static Pieces> for ValueBag<'a> {
    fn from(p: &'a &'static Pieces) -> Self {
        ValueBag::from(*p)
    }
}

#[cfg(feature = "sval")]
#[derive(Default)]
struct Texts {
    all: Vec<String>,
}
#[cfg(feature = "sval")]
impl<'s> sval::Stream<'s> for Texts {
    fn null(&mut self) -> sval::Result {
        sval::error()
    }
    fn bool(&mut self, _: bool) -> sval::Result {
        sval::error()
    }
    fn i64(&mut self, _: i64) -> sval::Result {
        sval::error()
    }
    fn f64(&mut self, _: f64) -> sval::Result {
        sval::error()
    }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result {
        self.all.push(String::new());
        Ok(())
    }
    fn text_fragment_computed(&mut self, t: &str) -> sval::Result {
        self.all.last_mut().unwrap().push_str(t);
        Ok(())
    }
    fn text_end(&mut self) -> sval::Result {
        Ok(())
    }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        Ok(())
    }
    fn seq_value_end(&mut self) -> sval::Result {
        Ok(())
    }
    fn seq_end(&mut self) -> sval::Result {
        Ok(())
    }
}

struct Seen(Option<String>);
impl<'v> Visit<'v> for Seen {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        self.0 = Some(v.to_string());
        Ok(())
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.0 = Some(v.to_owned());
        Ok(())
    }
}

/// Every way to read the text back: name, expected, got.
fn read(b: &ValueBag, route: &str, whole: &str) -> Vec<(&'static str, String, String)> {
    let mut out = vec![];
    let seq = route.starts_with("seq");
    let text = is_text(route);
    // text that formats as a string literal
    let lit = format!("{whole:?}");
    let el = if route == "seq_str" { lit.clone() } else { whole.to_owned() };
    let shown = match route {
        "capture_serde" | "from_serde_str" | "capture_sval" | "from_sval_str" => lit.clone(),
        _ if seq => format!("[{el}]"),
        _ => whole.to_owned(),
    };
    // serde_fmt shows text that is collected from a Display without quotes
    let plain = |s: String| if route == "capture_serde" && s == whole { lit.clone() } else { s };
    out.push(("display", shown.clone(), plain(format!("{b}"))));
    out.push(("to_string", shown.clone(), plain(b.to_string())));
    if route != "capture_error" {
        out.push(("debug", if text { lit.clone() } else { shown.clone() }, plain(format!("{b:?}"))));
    }
    if text {
        let got = |s: Option<&str>| s.map_or("nothing".into(), |s| s.to_owned());
        out.push(("to_str", whole.into(), got(b.to_str().as_deref())));
        out.push(("to_borrowed_str", whole.into(), b.to_borrowed_str().map_or(whole.into(), |s| s.to_owned())));
    }
    let mut v = Seen(None);
    let r = b.visit(&mut v);
    out.push(("visit", if text { whole.into() } else { shown }, if r.is_ok() { v.0.unwrap_or_else(|| "nothing".into()) } else { "failed".into() }));
    #[cfg(feature = "serde")]
    {
        let want = if seq { serde_json::to_string(&[whole]) } else { serde_json::to_string(whole) };
        out.push(("serde", want.unwrap(), serde_json::to_string(b).unwrap_or_else(|e| e.to_string())));
    }
    #[cfg(feature = "sval")]
    {
        let mut t = Texts::default();
        let ok = sval::stream(&mut t, b).is_ok();
        out.push(("sval", format!("{:?}", (true, [whole])), format!("{:?}", (ok, t.all))));
    }
    #[cfg(feature = "seq")]
    if route == "seq_str" {
        let els: Option<Vec<Option<std::borrow::Cow<str>>>> = b.to_str_seq();
        out.push(("to_str_seq", whole.into(), els.and_then(|e| e.into_iter().next().flatten()).map_or("nothing".into(), |s| s.into_owned())));
    }
    #[cfg(feature = "error")]
    if route == "capture_error" {
        out.push(("to_borrowed_error", whole.into(), b.to_borrowed_error().map_or(whole.into(), |e| e.to_string())));
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).map(|s| s.parse::<u64>().unwrap());
    let seed = arg("--seed").unwrap_or(0);
    let styles = arg("--styles").unwrap_or(2);
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let cases: Vec<(bool, Vec<usize>)> = text
        .lines()
        .filter_map(|l| l.strip_prefix("\"T"))
        .map(|l| {
            let (at, sizes) = l.trim_end_matches('"').split_once(' ').unwrap();
            let s = sizes.trim_start_matches("<<").trim_end_matches(">>");
            (at == "failed", s.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
        })
        .collect();
    std::panic::set_hook(Box::new(|_| ()));
    let next = AtomicUsize::new(0);
    let bad = Mutex::new(vec![]);
    let checks = AtomicUsize::new(0);
    let traces = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..std::thread::available_parallelism().map_or(4, |n| n.get()) {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                let Some((fails, sizes)) = cases.get(i) else { break };
                for style in 0..styles {
                    let mut rng = Rng::new(seed, &format!("{sizes:?}{style}"));
                    let mut p = Pieces { parts: sizes.iter().map(|n| lv::text_exact(*n, &mut rng)).collect(), fails: *fails, by: rng.next() };
                    if style == 0 {
                        p.by = 0;
                    }
                    let at = Box::into_raw(Box::new(p));
                    let p: &'static Pieces = unsafe { &*at };
                    let whole = p.whole();
                    for route in ROUTES {
                        if *fails && (is_text(route) || *route == "seq_str") {
                            continue;
                        }
                        let run = catch_unwind(AssertUnwindSafe(|| {
                            with(route, p, |b| {
                                let o: OwnedValueBag = if rng.below(2) == 0 { b.to_owned() } else { b.to_shared() };
                                if *fails {
                                    // what is shown instead is not of interest here: it must not be half of the text
                                    let s = o.to_string();
                                    return vec![("failed", "no partial text".to_owned(), if whole.len() > 30 && s.contains(&whole) { s } else { "no partial text".into() })];
                                }
                                let mut out = read(&o.by_ref(), route, &whole);
                                match rng.below(4) {
                                    0 => out.extend(read(&o.clone().by_ref(), route, &whole)),
                                    1 => out.extend(read(&o.clone().into_shared().by_ref(), route, &whole)),
                                    2 => out.extend(read(&o.by_ref().to_owned().by_ref(), route, &whole)),
                                    _ => out.extend(read(&b, route, &whole)),
                                }
                                out
                            })
                        }));
                        traces.fetch_add(1, Ordering::Relaxed);
                        let out = run.unwrap_or_else(|_| vec![("panic", "none".into(), "panicked".into())]);
                        checks.fetch_add(out.len(), Ordering::Relaxed);
                        for (op, want, got) in out {
                            if want != got {
                                bad.lock().unwrap().push((sizes.len(), sizes.iter().sum::<usize>(), json!({
                                    "props": ["P16"], "src": format!("{sizes:?}"), "route": route, "mode": style, "path": "to_owned",
                                    "op": op, "expected": want, "got": got})));
                            }
                        }
                    }
                    drop(unsafe { Box::from_raw(at) });
                }
            });
        }
    });
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|b| (b.0, b.1));
    let out = json!({"cases": cases.len(), "traces": traces.into_inner(), "checks": checks.into_inner(),
        "mismatches": bad.into_iter().take(20).map(|b| b.2).collect::<Vec<_>>()});
    std::fs::write(&args[2], out.to_string()).unwrap();
}
