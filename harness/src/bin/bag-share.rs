//! Replays the state graph of spec/ShareMC.tla on the implementation, and records
//! concurrent histories for spec/ShareTrace.tla.
//!
//!   bag-share walk GRAPH OUT.json --route R [--seed N] [--steps N]
//!   bag-share trace OUT.ndjson --route R [--seed N] [--runs N]
//!   bag-share routes

use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex};
use value_bag::visit::Visit;
use value_bag::{Error, OwnedValueBag, ValueBag};

#[path = "../lv.rs"]
#[allow(dead_code)]
mod lv;
use lv::Rng;

// ---------------------------------------------------------------- allocations

/// Remembers what is allocated while a step runs, until it is freed.
struct Counting;

const CAP: usize = 4096;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut TABLE: [usize; CAP] = [0; CAP];
static HIGH: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BYTES: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
}

fn with_table<R>(f: impl FnOnce(&mut [usize; CAP]) -> R) -> R {
    while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *std::ptr::addr_of_mut!(TABLE) });
    LOCK.store(false, SeqCst);
    r
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if TRACK.try_with(|t| t.get()).unwrap_or(false) {
            BYTES.fetch_add(l.size(), SeqCst);
            with_table(|t| {
                for i in 0..CAP {
                    if t[i] == 0 {
                        t[i] = p as usize;
                        HIGH.fetch_max(i + 1, SeqCst);
                        LIVE.fetch_add(1, SeqCst);
                        break;
                    }
                }
            });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if LIVE.load(SeqCst) > 0 {
            with_table(|t| {
                let high = HIGH.load(SeqCst);
                for i in 0..high {
                    if t[i] == p as usize {
                        t[i] = 0;
                        LIVE.fetch_sub(1, SeqCst);
                        break;
                    }
                }
            });
        }
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

fn tracked<R>(f: impl FnOnce() -> R) -> R {
    TRACK.with(|t| t.set(true));
    let r = f();
    TRACK.with(|t| t.set(false));
    r
}

// ---------------------------------------------------------------- sources

static READS: AtomicUsize = AtomicUsize::new(0);
static DROPS: AtomicUsize = AtomicUsize::new(0);
static CLOCK: AtomicUsize = AtomicUsize::new(0);
static GONE: Mutex<Vec<(usize, std::thread::ThreadId)>> = Mutex::new(Vec::new());

/// A source whose content is its current version and some padding.
pub struct Src {
    ver: Arc<AtomicUsize>,
    pad: String,
    counts: bool,
}

fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let was = TRACK.with(|t| t.replace(false));
    let r = f();
    TRACK.with(|t| t.set(was));
    r
}

impl Src {
    fn text(&self) -> String {
        READS.fetch_add(1, SeqCst);
        untracked(|| format!("ver{}.{}", self.ver.load(SeqCst), self.pad))
    }
}
fn dropped() {
    untracked(|| {
        GONE.lock().unwrap().push((CLOCK.fetch_add(1, SeqCst), std::thread::current().id()));
        DROPS.fetch_add(1, SeqCst);
    });
}
impl Drop for Src {
    fn drop(&mut self) {
        if self.counts {
            dropped();
        }
    }
}
impl fmt::Debug for Src {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.text())
    }
}
impl fmt::Display for Src {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.text())
    }
}
impl std::error::Error for Src {}
impl serde::Serialize for Src {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.text())
    }
}
#[cfg(feature = "sval")]
impl sval::Value for Src {
    fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        let t = self.text();
        s.text_begin(None)?;
        s.text_fragment_computed(&t[..5])?;
        s.text_fragment_computed(&t[5..])?;
        s.text_end()
    }
}

/// The same content as a structure of two parts.
pub struct Pair(Src);
impl fmt::Debug for Pair {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_tuple("Pair").field(&self.0).field(&1).finish()
    }
}
impl serde::Serialize for Pair {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (&self.0, 1u8).serialize(s)
    }
}
#[cfg(feature = "sval")]
impl sval::Value for Pair {
    fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        s.seq_begin(Some(2))?;
        s.seq_value_begin()?;
        sval::Value::stream(&self.0, s)?;
        s.seq_value_end()?;
        s.seq_value_begin()?;
        s.u8(1)?;
        s.seq_value_end()?;
        s.seq_end()
    }
}

/// A sequence of sources with one version.
pub struct List(Vec<Src>);
impl AsRef<[Src]> for List {
    fn as_ref(&self) -> &[Src] {
        &self.0
    }
}
impl Drop for List {
    fn drop(&mut self) {
        dropped();
    }
}
impl<'a> From<&'a Src> for ValueBag<'a> {
    fn from(s: &'a Src) -> Self {
        ValueBag::capture_display(s)
    }
}

#[cfg(feature = "seq")]
pub struct ListFill(List);
pub struct Fills(Src, &'static str);
impl value_bag::fill::Fill for Fills {
    fn fill(&self, slot: value_bag::fill::Slot) -> Result<(), Error> {
        match self.1 {
            "fill_debug" => slot.fill_debug(&self.0),
            "fill_display" => slot.fill_display(&self.0),
            #[cfg(feature = "error")]
            "fill_error" => slot.fill_dyn_error(&self.0),
            #[cfg(feature = "sval")]
            "fill_sval" => slot.fill_sval2(&self.0),
            #[cfg(feature = "serde")]
            "fill_serde" => slot.fill_serde1(&self.0),
            // kept alive by the driver
            _ => slot.fill_any(ValueBag::capture_debug(unsafe { &*(&self.0 as *const Src) })),
        }
    }
}
#[cfg(feature = "seq")]
impl value_bag::fill::Fill for ListFill {
    fn fill(&self, slot: value_bag::fill::Slot) -> Result<(), Error> {
        // kept alive by the driver
        slot.fill_seq_slice(unsafe { &*(&self.0 as *const List) })
    }
}

/// The source while the caller has it.
#[allow(dead_code)]
enum Own {
    Src(Box<Src>),
    Pair(Box<Pair>),
    List(Box<List>),
    Fills(Box<Fills>),
    #[cfg(feature = "seq")]
    ListFill(Box<ListFill>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Src,
    Pair,
    List,
    Fills,
    ListFill,
}

#[derive(Clone, Copy, Debug)]
struct Route {
    name: &'static str,
    share: bool,
    kind: Kind,
    big: bool,
}

fn routes() -> Vec<Route> {
    let mut out = vec![];
    let mut add = |name, share, kind| {
        for big in [false, true] {
            out.push(Route { name, share, kind, big });
        }
    };
    for n in ["capture_debug", "capture_display", "from_debug", "from_display", "from_dyn_debug", "from_dyn_display"] {
        add(n, false, Kind::Src);
    }
    for n in ["fill_debug", "fill_display", "fill_any"] {
        add(n, false, Kind::Fills);
    }
    add("shared_debug", true, Kind::Src);
    add("shared_display", true, Kind::Src);
    if cfg!(feature = "error") {
        add("capture_error", false, Kind::Src);
        add("from_dyn_error", false, Kind::Src);
        add("fill_error", false, Kind::Fills);
        add("shared_error", true, Kind::Src);
    }
    if cfg!(feature = "sval") {
        add("capture_sval", false, Kind::Src);
        add("from_sval", false, Kind::Src);
        add("from_dyn_sval", false, Kind::Src);
        add("pair_sval", false, Kind::Pair);
        add("fill_sval", false, Kind::Fills);
        add("shared_sval", true, Kind::Src);
        add("shared_pair_sval", true, Kind::Pair);
    }
    if cfg!(feature = "serde") {
        add("capture_serde", false, Kind::Src);
        add("from_serde", false, Kind::Src);
        add("pair_serde", false, Kind::Pair);
        add("fill_serde", false, Kind::Fills);
        add("shared_serde", true, Kind::Src);
        add("shared_pair_serde", true, Kind::Pair);
    }
    if cfg!(feature = "seq") {
        add("from_seq", false, Kind::List);
        add("fill_seq", false, Kind::ListFill);
        add("shared_seq", true, Kind::List);
    }
    out
}

impl Route {
    fn id(&self) -> String {
        format!("{}{}", self.name, if self.big { "+" } else { "" })
    }
    fn pad(&self) -> String {
        if self.big { "0123456789abcdef".repeat(100) } else { "z".into() }
    }
    fn make(&self, ver: &Arc<AtomicUsize>) -> Own {
        let src = |counts| Src { ver: ver.clone(), pad: self.pad(), counts };
        match self.kind {
            Kind::Src => Own::Src(Box::new(src(true))),
            Kind::Pair => Own::Pair(Box::new(Pair(src(true)))),
            Kind::Fills => Own::Fills(Box::new(Fills(src(true), self.name))),
            Kind::List => Own::List(Box::new(List(vec![src(false), src(false)]))),
            #[cfg(feature = "seq")]
            Kind::ListFill => Own::ListFill(Box::new(ListFill(List(vec![src(false), src(false)])))),
            #[cfg(not(feature = "seq"))]
            Kind::ListFill => unreachable!(),
        }
    }
    /// The number of places that show the content.
    fn shown(&self) -> usize {
        if matches!(self.kind, Kind::List | Kind::ListFill) { 2 } else { 1 }
    }
    fn is_error(&self) -> bool {
        self.name.contains("error")
    }

    fn borrow(&self, own: &'static Own) -> ValueBag<'static> {
        match own {
            Own::Src(s) => {
                let s: &'static Src = s;
                match self.name {
                    "capture_debug" => ValueBag::capture_debug(s),
                    "capture_display" => ValueBag::capture_display(s),
                    "from_debug" => ValueBag::from_debug(s),
                    "from_display" => ValueBag::from_display(s),
                    "from_dyn_debug" => ValueBag::from_dyn_debug(s),
                    "from_dyn_display" => ValueBag::from_dyn_display(s),
                    #[cfg(feature = "error")]
                    "capture_error" => ValueBag::capture_error(s),
                    #[cfg(feature = "error")]
                    "from_dyn_error" => ValueBag::from_dyn_error(s),
                    #[cfg(feature = "sval")]
                    "capture_sval" => ValueBag::capture_sval2(s),
                    #[cfg(feature = "sval")]
                    "from_sval" => ValueBag::from_sval2(s),
                    #[cfg(feature = "sval")]
                    "from_dyn_sval" => ValueBag::from_dyn_sval2(s),
                    #[cfg(feature = "serde")]
                    "capture_serde" => ValueBag::capture_serde1(s),
                    #[cfg(feature = "serde")]
                    "from_serde" => ValueBag::from_serde1(s),
                    n => panic!("route {n}"),
                }
            }
            #[allow(unused_variables)]
            Own::Pair(p) => match self.name {
                #[cfg(feature = "sval")]
                "pair_sval" => ValueBag::capture_sval2(&**p),
                #[cfg(feature = "serde")]
                "pair_serde" => ValueBag::capture_serde1(&**p),
                n => panic!("route {n}"),
            },
            Own::Fills(f) => ValueBag::from_fill(&**f),
            #[cfg(feature = "seq")]
            Own::List(l) => ValueBag::from_seq_slice(&**l),
            #[cfg(feature = "seq")]
            Own::ListFill(l) => ValueBag::from_fill(&**l),
            #[cfg(not(feature = "seq"))]
            Own::List(_) => unreachable!(),
        }
    }

    fn share(&self, own: Own) -> ValueBag<'static> {
        match own {
            Own::Src(s) => match self.name {
                "shared_debug" => ValueBag::capture_shared_debug(*s),
                "shared_display" => ValueBag::capture_shared_display(*s),
                #[cfg(feature = "error")]
                "shared_error" => ValueBag::capture_shared_error(*s),
                #[cfg(feature = "sval")]
                "shared_sval" => ValueBag::capture_shared_sval2(*s),
                #[cfg(feature = "serde")]
                "shared_serde" => ValueBag::capture_shared_serde1(*s),
                n => panic!("route {n}"),
            },
            #[allow(unused_variables)]
            Own::Pair(p) => match self.name {
                #[cfg(feature = "sval")]
                "shared_pair_sval" => ValueBag::capture_shared_sval2(*p),
                #[cfg(feature = "serde")]
                "shared_pair_serde" => ValueBag::capture_shared_serde1(*p),
                n => panic!("route {n}"),
            },
            #[cfg(feature = "seq")]
            Own::List(l) => ValueBag::capture_shared_seq_slice(*l),
            _ => unreachable!(),
        }
    }

    /// Address of the object behind the bag, where the route can tell.
    fn at(&self, b: &ValueBag) -> Option<usize> {
        match self.kind {
            Kind::Src => b.downcast_ref::<Src>().map(|p| p as *const Src as usize),
            Kind::Pair => b.downcast_ref::<Pair>().map(|p| p as *const Pair as usize),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- observing

#[cfg(feature = "sval")]
struct Texts(String);
#[cfg(feature = "sval")]
impl<'s> sval::Stream<'s> for Texts {
    fn null(&mut self) -> sval::Result {
        Ok(())
    }
    fn bool(&mut self, _: bool) -> sval::Result {
        Ok(())
    }
    fn i64(&mut self, _: i64) -> sval::Result {
        Ok(())
    }
    fn f64(&mut self, _: f64) -> sval::Result {
        Ok(())
    }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }
    fn text_fragment_computed(&mut self, t: &str) -> sval::Result {
        self.0.push_str(t);
        Ok(())
    }
    fn text_end(&mut self) -> sval::Result {
        Ok(())
    }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        Ok(())
    }
    fn seq_value_end(&mut self) -> sval::Result {
        Ok(())
    }
    fn seq_end(&mut self) -> sval::Result {
        Ok(())
    }
}

struct Shown(String);
impl<'v> Visit<'v> for Shown {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        self.0 = format!("{v}");
        Ok(())
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.0 = v.into();
        Ok(())
    }
}

/// What a bag shows, in one of several ways.
fn show(b: &ValueBag, how: u64, error: bool) -> String {
    match how % 7 {
        1 if !error => format!("{b:?}"),
        2 => {
            let mut v = Shown(String::new());
            b.visit(&mut v).map(|_| v.0).unwrap_or_else(|_| "visit failed".into())
        }
        #[cfg(feature = "serde")]
        3 => serde_json::to_string(b).unwrap_or_else(|e| format!("serde failed {e}")),
        #[cfg(feature = "sval")]
        4 => {
            let mut t = Texts(String::new());
            sval::stream(&mut t, b).map(|_| t.0).unwrap_or_else(|_| "sval failed".into())
        }
        5 => b.to_string(),
        6 => format!("{:2000}", b),
        _ => format!("{b}"),
    }
}

enum H {
    Bag(ValueBag<'static>),
    Own(OwnedValueBag),
}

impl H {
    fn show(&self, how: u64, error: bool) -> String {
        match self {
            H::Bag(b) => match how / 7 % 3 {
                0 => show(b, how, error),
                1 => show(&b.by_ref(), how, error),
                _ => show(&b.clone().by_ref(), how, error),
            },
            H::Own(o) => match how / 7 % 4 {
                0 => show(&o.by_ref(), how, error),
                1 => show(&o.by_ref().by_ref(), how, error),
                2 => show(&o.clone().by_ref(), how, error),
                _ => match how % 4 {
                    #[cfg(feature = "serde")]
                    0 => serde_json::to_string(o).unwrap_or_default(),
                    1 if !error => format!("{o:?}"),
                    _ => format!("{o}"),
                },
            },
        }
    }
    fn at(&self, r: &Route) -> Option<usize> {
        match self {
            H::Bag(b) => r.at(b),
            H::Own(o) => r.at(&o.by_ref()),
        }
    }
    fn clone(&self) -> H {
        match self {
            H::Bag(b) => H::Bag(b.clone()),
            H::Own(o) => H::Own(o.clone()),
        }
    }
    fn to_owned(&self) -> H {
        H::Own(match self {
            H::Bag(b) => b.to_owned(),
            H::Own(o) => o.by_ref().to_owned(),
        })
    }
    fn to_shared(&self) -> H {
        H::Own(match self {
            H::Bag(b) => b.to_shared(),
            H::Own(o) => o.by_ref().to_shared(),
        })
    }
}

/// `n` copies of version `v` with all of the padding, and of no other version.
fn shows(s: &str, r: &Route, v: usize) -> bool {
    let want = format!("ver{v}.{}", r.pad());
    s.matches(&want).count() == r.shown() && s.matches("ver").count() == r.shown()
}

// ---------------------------------------------------------------- second thread

struct Job(*mut (dyn FnMut() + 'static));
unsafe impl Send for Job {}
struct Worker {
    to: mpsc::SyncSender<Job>,
    done: mpsc::Receiver<bool>,
}
impl Worker {
    fn new() -> Worker {
        let (to, rx) = mpsc::sync_channel::<Job>(1);
        let (tx, done) = mpsc::sync_channel(1);
        std::thread::spawn(move || {
            for j in rx {
                let ok = catch_unwind(AssertUnwindSafe(|| unsafe { (*j.0)() })).is_ok();
                TRACK.with(|t| t.set(false));
                if tx.send(ok).is_err() {
                    break;
                }
            }
        });
        Worker { to, done }
    }
    /// Run in the second thread and wait.
    fn run<R>(&self, f: impl FnOnce() -> R) -> R {
        let mut f = Some(f);
        let mut out = None;
        {
            let mut g = || out = Some((f.take().unwrap())());
            let p: *mut (dyn FnMut() + '_) = &mut g;
            self.to.send(Job(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(p) })).unwrap();
            if !self.done.recv().unwrap() {
                panic!("panicked in the second thread");
            }
        }
        out.unwrap()
    }
}

// ---------------------------------------------------------------- the graph

#[derive(Clone, Debug)]
struct Hold {
    own: bool,
    thread: u8,
    /// the content of a snapshot, or nothing for the source
    snap: Option<usize>,
}
struct State {
    key: String,
    ver: usize,
    src: String,
    drops: usize,
    hold: Vec<Option<Hold>>,
    next: Vec<Edge>,
}
struct Edge {
    a: String,
    h: usize,
    reads: bool,
    cheap: bool,
    to: usize,
}

fn load(path: &str, mode: &str) -> Vec<State> {
    let text = std::fs::read_to_string(path).unwrap();
    let mut ids: HashMap<&str, usize> = HashMap::new();
    let mut lines = vec![];
    for l in text.lines() {
        let Some(l) = l.strip_prefix("\"H") else { continue };
        if !l.starts_with(mode) {
            continue;
        }
        let parts: Vec<&str> = l.trim_end_matches('"').split(" | ").collect();
        ids.insert(parts[0], lines.len());
        lines.push(parts);
    }
    lines
        .iter()
        .map(|p| {
            let w: Vec<&str> = p[0].split(' ').collect();
            State {
                key: p[0].to_string(),
                ver: w[1].parse().unwrap(),
                src: w[2].into(),
                drops: w[3].parse().unwrap(),
                hold: w[4..]
                    .iter()
                    .map(|h| {
                        (*h != "-").then(|| Hold {
                            own: h.starts_with('o'),
                            thread: h.as_bytes()[1] - b'0',
                            snap: h.split_once(':').map(|(_, v)| v.trim_end_matches('A').parse().unwrap()),
                        })
                    })
                    .collect(),
                next: p[1..]
                    .iter()
                    .map(|e| {
                        let f: Vec<&str> = e.splitn(5, ',').collect();
                        Edge { a: f[0].into(), h: f[1].parse().unwrap(), reads: f[2] == "1", cheap: f[3] == "1", to: ids[f[4]] }
                    })
                    .collect(),
            }
        })
        .collect()
}

// ---------------------------------------------------------------- replay

struct Bad {
    props: Vec<&'static str>,
    op: String,
    expected: String,
    got: String,
}

struct World {
    r: Route,
    ver: Arc<AtomicUsize>,
    own: Option<&'static Own>,
    hold: Vec<Option<H>>,
    obj: Option<usize>,
    junk: Option<Vec<u8>>,
}

impl World {
    fn new(r: Route, n: usize) -> World {
        let ver = Arc::new(AtomicUsize::new(0));
        DROPS.store(0, SeqCst);
        GONE.lock().unwrap().clear();
        let own = Box::leak(Box::new(r.make(&ver)));
        World { r, ver, own: Some(own), hold: (0..n).map(|_| None).collect(), obj: None, junk: None }
    }

    fn take_own(&mut self) -> Own {
        let own = self.own.take().unwrap();
        *unsafe { Box::from_raw(own as *const Own as *mut Own) }
    }

    fn apply(&mut self, w: &Worker, e: &Edge, from: &State) {
        let r = self.r;
        let slot = self.hold.iter().position(|h| h.is_none());
        match e.a.as_str() {
            "mutate" => {
                self.ver.fetch_add(1, SeqCst);
            }
            "capture" => {
                let b = if r.share {
                    let own = self.take_own();
                    tracked(|| r.share(own))
                } else {
                    let own = self.own.unwrap();
                    tracked(|| r.borrow(own))
                };
                if r.share {
                    self.obj = r.at(&b);
                }
                self.hold[slot.unwrap()] = Some(H::Bag(b));
            }
            "drop_source" => {
                let own = self.take_own();
                drop(own);
                // reuse memory of that size
                self.junk = Some(vec![0x5a; r.pad().len().max(32)]);
            }
            _ => {
                let i = e.h - 1;
                let second = from.hold[i].as_ref().unwrap().thread == 2;
                let a = e.a.as_str();
                let cell = &mut self.hold;
                let mut step = || {
                    let got = tracked(|| match a {
                        "clone" => Some(cell[i].as_ref().unwrap().clone()),
                        "to_owned" => Some(cell[i].as_ref().unwrap().to_owned()),
                        "to_shared" => Some(cell[i].as_ref().unwrap().to_shared()),
                        "into_shared" => {
                            let Some(H::Own(o)) = cell[i].take() else { unreachable!() };
                            cell[i] = Some(H::Own(o.into_shared()));
                            None
                        }
                        "send" => None,
                        "drop" => {
                            cell[i] = None;
                            None
                        }
                        a => panic!("unknown step {a}"),
                    });
                    if let Some(h) = got {
                        cell[slot.unwrap()] = Some(h);
                    }
                };
                if second {
                    w.run(step)
                } else {
                    step()
                }
            }
        }
    }

    /// Compare with the state of the specification.
    fn check(&self, w: &Worker, e: &Edge, to: &State, reads: usize, bytes: usize, rng: &mut Rng, all: bool, checks: &mut usize) -> Option<Bad> {
        let r = &self.r;
        let fail = |props: &[&'static str], op: String, expected: String, got: String| Some(Bad { props: props.to_vec(), op, expected, got });
        if e.a != "mutate" && e.a != "drop_source" && e.reads != (reads > 0) {
            return fail(&["P14", "P15"], format!("{} calls into the source", e.a), if e.reads { "some" } else { "none" }.into(), reads.to_string());
        }
        if e.cheap && r.big && bytes > 512 {
            return fail(&["P15"], format!("{} allocates", e.a), "not in proportion to the content".into(), format!("{bytes} bytes"));
        }
        let drops = DROPS.load(SeqCst);
        if drops != to.drops {
            return fail(&["P15"], "drops of the source".into(), to.drops.to_string(), drops.to_string());
        }
        *checks += 3;
        for (i, h) in to.hold.iter().enumerate() {
            let (Some(h), Some(x)) = (h, &self.hold[i]) else { continue };
            if !all && rng.below(2) == 0 {
                continue;
            }
            let how = rng.next() % 1000;
            let want = h.snap.unwrap_or(to.ver);
            let before = READS.load(SeqCst);
            let (got, at) = if h.thread == 2 { w.run(|| (x.show(how, r.is_error()), x.at(r))) } else { (x.show(how, r.is_error()), x.at(r)) };
            let reads = READS.load(SeqCst) - before;
            *checks += 2;
            if !shows(&got, r, want) {
                let got: String = got.trim().chars().take(60).collect();
                return fail(if r.share { &["P14", "P15"] } else { &["P14"] }, format!("handle {} shows", i + 1), format!("ver{want}"), got);
            }
            if (reads > 0) != h.snap.is_none() {
                return fail(
                    &["P14"],
                    format!("calls into the source when observing handle {}", i + 1),
                    if h.snap.is_none() { "some" } else { "none" }.into(),
                    reads.to_string(),
                );
            }
            if r.share && r.kind != Kind::List {
                *checks += 1;
                if at != self.obj || at.is_none() {
                    return fail(&["P15"], format!("handle {} refers to", i + 1), format!("{:x?}", self.obj), format!("{at:x?}"));
                }
            }
            if !r.share && h.snap.is_some() && at.is_some() {
                return fail(&["P14"], format!("handle {} downcasts to the source", i + 1), "no".into(), format!("{at:x?}"));
            }
        }
        let live = LIVE.load(SeqCst);
        if to.hold.iter().all(|h| h.is_none()) && live != 0 {
            return fail(&["P15"], "allocations left without holders".into(), "0".into(), live.to_string());
        }
        None
    }
}

fn walk(args: &[String]) {
    let id = arg(args, "--route").unwrap();
    let r = routes().into_iter().find(|r| r.id() == id).expect("route");
    let g = load(&args[2], if r.share { "share" } else { "borrow" });
    let seed: u64 = arg(args, "--seed").map_or(0, |s| s.parse().unwrap());
    let max: usize = arg(args, "--steps").map_or(usize::MAX, |s| s.parse().unwrap());
    std::panic::set_hook(Box::new(|_| ()));
    let n = g[0].hold.len();
    let init = g.iter().position(|s| s.src == "own" && s.ver == 0 && s.hold.iter().all(|h| h.is_none())).unwrap();
    let mut open: Vec<Vec<usize>> = g.iter().map(|s| (0..s.next.len()).collect()).collect();
    let total: usize = open.iter().map(|o| o.len()).sum();
    let mut seen = vec![(0usize, 0usize, 0usize); g.len()];
    let mut round = 0;
    let mut rng = Rng::new(seed, &id);
    let w = Worker::new();
    let (mut steps, mut restarts, mut covered, mut checks) = (0usize, 0usize, 0usize, 0usize);
    let mut bad: Option<(Bad, String, Vec<String>)> = None;
    let mut sample = vec![];
    'runs: while covered < total && steps < max {
        restarts += 1;
        let mut world = World::new(r, n);
        let mut at = init;
        let mut path: VecDeque<String> = VecDeque::new();
        while steps < max {
            // an untried step here, or the way to the nearest one
            let mut plan: Vec<(usize, usize)> = vec![];
            if open[at].is_empty() {
                round += 1;
                let mut q = VecDeque::from([at]);
                seen[at].0 = round;
                let mut found = None;
                'search: while let Some(x) = q.pop_front() {
                    for (k, e) in g[x].next.iter().enumerate() {
                        if seen[e.to].0 != round {
                            seen[e.to] = (round, x, k);
                            if !open[e.to].is_empty() {
                                found = Some(e.to);
                                break 'search;
                            }
                            q.push_back(e.to);
                        }
                    }
                }
                let Some(mut x) = found else { break };
                while x != at {
                    let (_, p, k) = seen[x];
                    plan.push((p, k));
                    x = p;
                }
                plan.reverse();
            } else {
                let i = rng.below(open[at].len() as u64) as usize;
                let k = open[at].swap_remove(i);
                covered += 1;
                plan.push((at, k));
            }
            for (p, k) in plan {
                let e = &g[p].next[k];
                let to = &g[e.to];
                if path.len() == 24 {
                    path.pop_front();
                }
                path.push_back(if e.h == 0 { e.a.clone() } else { format!("{}({})", e.a, e.h) });
                steps += 1;
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let before = READS.load(SeqCst);
                    BYTES.store(0, SeqCst);
                    world.apply(&w, e, &g[p]);
                    let (reads, bytes) = (READS.load(SeqCst) - before, BYTES.load(SeqCst));
                    let kind_ok = to.hold.iter().zip(&world.hold).all(|(s, h)| match (s, h) {
                        (None, None) => true,
                        (Some(s), Some(H::Own(_))) => s.own,
                        (Some(s), Some(H::Bag(_))) => !s.own,
                        _ => false,
                    });
                    assert!(kind_ok, "harness out of step with the specification");
                    world.check(&w, e, to, reads, bytes, &mut rng, e.a == "mutate" || e.a == "drop_source" || e.a == "drop", &mut checks)
                }));
                TRACK.with(|t| t.set(false));
                let b = match res {
                    Ok(b) => b,
                    Err(p) => Some(Bad {
                        props: vec!["P14", "P15"],
                        op: e.a.clone(),
                        expected: "no panic".into(),
                        got: p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
                    }),
                };
                if let Some(b) = b {
                    bad = Some((b, g[p].key.clone(), path.into_iter().collect()));
                    std::mem::forget(world);
                    break 'runs;
                }
                at = e.to;
                if sample.len() < 2 && steps % 997 == 0 {
                    sample.push(json!({"route": id, "steps": path.iter().collect::<Vec<_>>(), "state": to.key}));
                }
            }
        }
        // a caller that still has its source lets go of it at the end
        world.hold.clear();
        if world.own.is_some() {
            drop(world.take_own());
        }
    }
    let out = json!({
        "route": id, "steps": steps, "edges": total, "covered": covered, "runs": restarts, "checks": checks, "states": g.len(), "samples": sample,
        "mismatches": bad.iter().map(|(b, s, p)| json!({
            "props": b.props, "route": id, "src": s, "path": p.join(" "), "op": b.op, "expected": b.expected, "got": b.got})).collect::<Vec<_>>(),
    });
    std::fs::write(&args[3], out.to_string()).unwrap();
    std::process::exit(0);
}

// ---------------------------------------------------------------- concurrent histories

type Log = Vec<(usize, serde_json::Value)>;

fn trace(args: &[String]) {
    let id = arg(args, "--route").unwrap();
    let r = routes().into_iter().find(|r| r.id() == id).expect("route");
    let seed: u64 = arg(args, "--seed").map_or(0, |s| s.parse().unwrap());
    let runs: usize = arg(args, "--runs").map_or(4, |s| s.parse().unwrap());
    let threads: usize = 3;
    let mut text = String::new();
    for run in 0..runs {
        let mut world = World::new(r, 0);
        let mut log: Log = vec![];
        let names = AtomicUsize::new(0);
        let tick = || CLOCK.fetch_add(1, SeqCst);
        let name = || names.fetch_add(1, SeqCst) + 1;
        log.push((tick(), json!({"e": "reset", "mode": if r.share { "share" } else { "borrow" }})));
        fn doing<R>(log: &mut Log, t: usize, op: &str, h: usize, n: usize, f: impl FnOnce() -> R, v: impl FnOnce(&R) -> usize) -> R {
            log.push((CLOCK.fetch_add(1, SeqCst), json!({"e": "b", "t": t, "op": op, "h": h, "n": n})));
            let x = f();
            let at = CLOCK.fetch_add(1, SeqCst);
            log.push((at, json!({"e": "e", "t": t, "v": v(&x)})));
            x
        }
        let none = |_: &H| 0;
        // the main thread captures and buffers, then hands out
        let n1 = name();
        let bag = doing(&mut log, 1, "capture", 0, n1, || H::Bag(if r.share { let o = world.take_own(); r.share(o) } else { r.borrow(world.own.unwrap()) }), none);
        let mut given = vec![];
        let mut rng = Rng::new(seed, &format!("{id}{run}"));
        for k in 0..threads {
            let n = name();
            let h = if rng.below(2) == 0 {
                doing(&mut log, 1, "to_owned", n1, n, || bag.to_owned(), none)
            } else {
                doing(&mut log, 1, "to_shared", n1, n, || bag.to_shared(), none)
            };
            let H::Own(o) = h else { unreachable!() };
            given.push((k, n, o));
        }
        doing(&mut log, 1, "drop", n1, 0, || drop(bag), |_| 0);
        let pool: Mutex<Vec<(usize, OwnedValueBag)>> = Mutex::new(vec![]);
        let ids: Mutex<HashMap<std::thread::ThreadId, usize>> = Mutex::new(HashMap::from([(std::thread::current().id(), 1)]));
        let start = std::sync::Barrier::new(threads);
        let logs: Vec<Log> = std::thread::scope(|sc| {
            let hs: Vec<_> = given
                .into_iter()
                .map(|(k, n, o)| {
                    let (pool, ids, start, name, id, ver) = (&pool, &ids, &start, &name, &id, &world.ver);
                    sc.spawn(move || {
                        let t = k + 1;
                        ids.lock().unwrap().insert(std::thread::current().id(), t);
                        let mut log: Log = vec![];
                        let mut rng = Rng::new(seed, &format!("{id}{run}t{t}"));
                        let mut mine = vec![(n, o)];
                        start.wait();
                        for _ in 0..7 {
                            if mine.is_empty() {
                                match pool.lock().unwrap().pop() {
                                    Some(x) => mine.push(x),
                                    None => break,
                                }
                            }
                            let i = rng.below(mine.len() as u64) as usize;
                            let h = mine[i].0;
                            let room = mine.len() < 2;
                            let new = if room { name() } else { 0 };
                            match rng.below(8) {
                                0 if room => {
                                    let x = doing(&mut log, t, "clone", h, new, || mine[i].1.clone(), |_| 0);
                                    mine.push((new, x));
                                }
                                1 if room => {
                                    let x = doing(&mut log, t, "to_owned", h, new, || mine[i].1.by_ref().to_owned(), |_| 0);
                                    mine.push((new, x));
                                }
                                2 if room => {
                                    let x = doing(&mut log, t, "to_shared", h, new, || mine[i].1.by_ref().to_shared(), |_| 0);
                                    mine.push((new, x));
                                }
                                3 => {
                                    let (h, o) = mine.swap_remove(i);
                                    let o = doing(&mut log, t, "into_shared", h, 0, || o.into_shared(), |_| 0);
                                    mine.push((h, o));
                                }
                                4 => {
                                    let x = mine.swap_remove(i);
                                    pool.lock().unwrap().push(x);
                                }
                                5 | 6 => {
                                    let (h, o) = mine.swap_remove(i);
                                    doing(&mut log, t, "drop", h, 0, || drop(o), |_| 0);
                                }
                                7 if rng.below(2) == 0 => {
                                    // one thread changes the source; a list shows its version twice, not at one moment
                                    if t == 1 && r.shown() == 1 && ver.load(SeqCst) < 2 {
                                        doing(&mut log, t, "mutate", 0, 0, || ver.fetch_add(1, SeqCst), |_| 0);
                                    }
                                }
                                k => {
                                    doing(
                                        &mut log,
                                        t,
                                        "observe",
                                        h,
                                        0,
                                        || show(&mine[i].1.by_ref(), k + rng.below(700), r.is_error()),
                                        |s| (0..4).find(|v| shows(s, &r, *v)).unwrap_or(99),
                                    );
                                }
                            }
                        }
                        for (h, o) in mine {
                            doing(&mut log, t, "drop", h, 0, || drop(o), |_| 0);
                        }
                        log
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (h, o) in pool.into_inner().unwrap() {
            doing(&mut log, 1, "drop", h, 0, || drop(o), |_| 0);
        }
        if world.own.is_some() {
            doing(&mut log, 1, "drop_source", 0, 0, || drop(world.take_own()), |_| 0);
        }
        logs.into_iter().for_each(|l| log.extend(l));
        let ids = ids.into_inner().unwrap();
        for (c, t) in GONE.lock().unwrap().iter() {
            log.push((*c, json!({"e": "gone", "t": ids.get(t).copied().unwrap_or(0)})));
        }
        log.sort_by_key(|x| x.0);
        for (_, e) in log {
            text.push_str(&e.to_string());
            text.push('\n');
        }
    }
    text.push_str("{\"e\":\"reset\",\"mode\":\"share\"}\n");
    std::fs::write(&args[2], text).unwrap();
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("walk") => walk(&args),
        Some("trace") => trace(&args),
        Some("routes") => routes().iter().for_each(|r| println!("{} {}", r.id(), if r.share { "share" } else { "borrow" })),
        _ => std::process::exit(2),
    }
}
