//! simshim: the instrumented boundary.
//!
//! Everything here is non-generic and never inlined, so that generic and
//! `#[inline]` code of the crates under test is always compiled (instrumented)
//! in this crate and never in the uninstrumented harness. No logic lives here.
#![allow(clippy::missing_safety_doc)]
#![allow(static_mut_refs)]
use std::any::Any;
use std::borrow::Cow;
use std::pin::Pin;
use std::sync::LazyLock;

pub use metriken::{
    AtomicHistogram, Counter, DynBoxedMetric, DynMetricsIter, DynPinnedMetric, Format, Gauge, Lazy, LazyCounter,
    LazyGauge, Metadata, Metric, MetricBuilder, MetricEntry, Metrics, MetricsIter, RwLockHistogram, Value,
};
use metriken::metric;
use metriken_core::Request;
pub use metriken_exposition::{Snapshot, Snapshotter, SnapshotterBuilder};

pub type Hist = metriken::histogram::Histogram;
pub type HistError = metriken::histogram::Error;
pub type FmtFn = fn(&MetricEntry, Format) -> String;

/// Typed data attached to dynamic metrics.
pub struct Tag(pub u64);
/// A second type of attached data.
pub struct Note(pub String);

/// What the harness wants to be told about a `Probe` or `Wide`.
#[derive(Clone, Copy)]
pub struct Hooks {
    pub value: fn(u64),
    pub dropped: fn(u64),
}
fn nop(_: u64) {}
pub static mut HOOKS: Hooks = Hooks { value: nop, dropped: nop };

/// A user-defined metric with a destructor and heap payload.
pub struct Probe {
    pub id: u64,
    pub payload: Box<[u64; 3]>,
    pub own: Tag,
}
/// Data a `Probe` provides by value.
#[derive(PartialEq, Debug)]
pub struct Own(pub u64);
static PROBE_META: LazyLock<Metadata> = LazyLock::new(|| Metadata::new([("own".to_string(), "probe".to_string())].into()));
impl Probe {
    #[inline(never)]
    pub fn make(id: u64) -> Self {
        Probe { id, payload: Box::new([id, id ^ 0x5555, !id]), own: Tag(id + 1_000_000) }
    }
}
impl Metric for Probe {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    #[inline(never)]
    fn value(&self) -> Option<Value> {
        let p = &self.payload;
        let ok = p[0] == self.id && p[1] == self.id ^ 0x5555 && p[2] == !self.id;
        unsafe { (HOOKS.value)(if ok { self.id } else { u64::MAX }) };
        Some(Value::Counter(self.payload[0]))
    }
    #[inline(never)]
    fn provide<'a>(&'a self, request: &mut Request<'a>) {
        request.provide_ref::<Metadata>(&PROBE_META);
        request.provide_ref(&self.own);
        // a request asks for one type, and once answered for none
        let (x, y) = (request.would_be_satisfied_by_value_of::<Own>(), request.would_be_satisfied_by_ref_of::<[u64]>());
        if x {
            request.provide_value_with(|| if y { Own(u64::MAX) } else { Own(self.payload[0]) });
        }
        if y {
            request.provide_ref_with::<[u64]>(|| if x { &[u64::MAX][..] } else { &self.payload[..] });
        }
        if request.would_be_satisfied_by_value_of::<Own>() || request.would_be_satisfied_by_ref_of::<[u64]>() {
            panic!("an answered request still asks");
        }
        request.provide_value(Own(0)); // too late if asked for
    }
}
impl Drop for Probe {
    #[inline(never)]
    fn drop(&mut self) {
        unsafe { (HOOKS.dropped)(self.id) };
        self.payload[0] = 0xDEAD;
        self.payload[1] = 0xDEAD;
        self.payload[2] = 0xDEAD;
    }
}

/// A metric of a type no consumer knows.
pub struct Opaque(pub u64);
impl Metric for Opaque {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value> {
        Some(Value::Other(self))
    }
}

/// A metric without any state of its own.
pub struct Zero;
impl Metric for Zero {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value> {
        Some(Value::Counter(77))
    }
}
/// A metric with a strict alignment.
#[repr(align(128))]
pub struct Aligned(pub Counter);
impl Metric for Aligned {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value> {
        Some(Value::Counter(self.0.value()))
    }
}

/// A metric that owns another registered metric.
#[repr(C)]
pub struct Owner {
    pub n: Counter,
    pub part: DynBoxedMetric<Probe>,
}
impl Metric for Owner {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value> {
        Some(Value::Counter(self.n.value()))
    }
}
/// Data whose destructor calls back.
pub struct Parting(pub fn());
impl Drop for Parting {
    #[inline(never)]
    fn drop(&mut self) {
        (self.0)()
    }
}

/// A lazily built metric with several words of state, to see half-built values.
pub struct Wide {
    pub w: [u64; 4],
    pub n: Counter,
    pub heap: Box<u64>,
}
impl Metric for Wide {
    fn as_any(&self) -> Option<&dyn Any> {
        Some(self)
    }
    fn value(&self) -> Option<Value> {
        Some(Value::Counter(self.n.value()))
    }
}
#[inline(never)]
pub fn wide_make(k: u64, pause: fn()) -> Wide {
    let mut w = Wide { w: [0; 4], n: Counter::with_value(k), heap: Box::new(0) };
    for i in 0..4 {
        pause();
        w.w[i] = k.wrapping_mul(i as u64 + 1);
    }
    *w.heap = !k;
    w
}
#[inline(never)]
pub fn wide_ok(w: &Wide, k: u64) -> bool {
    (0..4).all(|i| w.w[i] == k.wrapping_mul(i as u64 + 1)) && *w.heap == !k
}

// ---------------------------------------------------------------- statics
fn static_fmt(e: &MetricEntry, f: Format) -> String {
    match f {
        Format::Simple => format!("custom/{}", e.name()),
        _ => format!("custom_prom_{}", e.metadata().len()),
    }
}
#[metric]
pub static S_PLAIN: Counter = Counter::new();
#[metric(name = "static/counter", description = "a counter", metadata = { unit = "ops", kind = "c" })]
pub static S_CTR: Counter = Counter::new();
#[metric(name = "static/gauge", description = "a gauge")]
pub static S_GAUGE: Gauge = Gauge::new();
#[metric(name = "static/lazy_counter", metadata = { lazy = "yes" })]
pub static S_LCTR: LazyCounter = LazyCounter::new(Counter::default);
#[metric(name = "static/lazy_gauge")]
pub static S_LGAUGE: LazyGauge = LazyGauge::new(Gauge::default);
#[metric(name = "static/histogram", description = "a histogram", metadata = { unit = "ns" })]
pub static S_HIST: AtomicHistogram = AtomicHistogram::new(1, 8);
#[metric(name = "static/bulk", description = "a bulk histogram")]
pub static S_BULK: RwLockHistogram = RwLockHistogram::new(0, 6);
#[metric(name = "static/formatted", formatter = static_fmt, metadata = { a = "1", b = "2", c = "3" })]
pub static S_FMT: Counter = Counter::new();
#[metric(name = "static/opaque")]
pub static S_OPAQUE: Opaque = Opaque(7);
const S_TEXT: &str = "a constant text";
const S_NAME: &str = concat!("static/", "constant");
#[metric(metadata = { "arg.val" = "b", "with space" = S_TEXT, long = concat!("x", "y"), }, description = S_TEXT, name = S_NAME)]
pub static S_CONST: Gauge = Gauge::new();
#[metric(formatter = static_fmt, description = "default name")]
pub static S_FMTNAME: Gauge = Gauge::new();
pub mod inner {
    use super::*;
    #[metric(description = "in a module", crate = metriken)]
    pub(crate) static S_INNER: Counter = Counter::new();
    pub fn local() -> &'static Counter {
        #[metric(formatter = |e: &MetricEntry, _: Format| format!("closure/{}", e.name()), metadata = { Unit = "A", unit = "a" })]
        static S_LOCAL: Counter = Counter::new();
        &S_LOCAL
    }
    pub fn s_inner() -> &'static Counter {
        &S_INNER
    }
}

/// name, description, metadata, simple format, kind
pub type StaticInfo = (&'static str, Option<&'static str>, &'static [(&'static str, &'static str)], &'static str, char);
pub static STATICS: [StaticInfo; 13] = [
    ("S_PLAIN", None, &[], "S_PLAIN", 'c'),
    ("static/counter", Some("a counter"), &[("unit", "ops"), ("kind", "c")], "static/counter", 'c'),
    ("static/gauge", Some("a gauge"), &[], "static/gauge", 'g'),
    ("static/lazy_counter", None, &[("lazy", "yes")], "static/lazy_counter", 'C'),
    ("static/lazy_gauge", None, &[], "static/lazy_gauge", 'G'),
    ("static/histogram", Some("a histogram"), &[("unit", "ns")], "static/histogram", 'h'),
    ("static/bulk", Some("a bulk histogram"), &[], "static/bulk", 'b'),
    ("static/formatted", None, &[("a", "1"), ("b", "2"), ("c", "3")], "custom/static/formatted", 'c'),
    ("static/opaque", None, &[], "static/opaque", 'o'),
    ("static/constant", Some("a constant text"), &[("arg.val", "b"), ("with space", "a constant text"), ("long", "xy")], "static/constant", 'g'),
    ("S_FMTNAME", Some("default name"), &[], "custom/S_FMTNAME", 'g'),
    ("S_INNER", Some("in a module"), &[], "S_INNER", 'c'),
    ("S_LOCAL", None, &[("Unit", "A"), ("unit", "a")], "closure/S_LOCAL", 'c'),
];

// ---------------------------------------------------------------- numbers
macro_rules! wrap {
    ($($n:ident($($a:ident : $t:ty),*) -> $r:ty { $e:expr })*) => { $(
        #[inline(never)] pub fn $n($($a: $t),*) -> $r { $e }
    )* };
}
wrap! {
    c_new(v: u64) -> Counter { Counter::with_value(v) }
    c_zero() -> Counter { Counter::new() }
    c_dflt() -> Counter { Counter::default() }
    g_zero() -> Gauge { Gauge::new() }
    g_dflt() -> Gauge { Gauge::default() }
    c_inc(c: &Counter) -> u64 { c.increment() }
    c_add(c: &Counter, v: u64) -> u64 { c.add(v) }
    c_set(c: &Counter, v: u64) -> u64 { c.set(v) }
    c_reset(c: &Counter) -> u64 { c.reset() }
    c_val(c: &Counter) -> u64 { c.value() }
    g_new(v: i64) -> Gauge { Gauge::with_value(v) }
    g_inc(c: &Gauge) -> i64 { c.increment() }
    g_dec(c: &Gauge) -> i64 { c.decrement() }
    g_add(c: &Gauge, v: i64) -> i64 { c.add(v) }
    g_sub(c: &Gauge, v: i64) -> i64 { c.sub(v) }
    g_set(c: &Gauge, v: i64) -> i64 { c.set(v) }
    g_reset(c: &Gauge) -> i64 { c.reset() }
    g_val(c: &Gauge) -> i64 { c.value() }
    h_new(g: u8, m: u8) -> AtomicHistogram { AtomicHistogram::new(g, m) }
    h_inc(h: &AtomicHistogram, v: u64) -> Result<(), HistError> { h.increment(v) }
    h_load(h: &AtomicHistogram) -> Option<Hist> { h.load() }
    h_cfg(h: &AtomicHistogram) -> (u8, u8) { (h.config().grouping_power(), h.config().max_value_power()) }
    b_new(g: u8, m: u8) -> RwLockHistogram { RwLockHistogram::new(g, m) }
    b_upd(h: &RwLockHistogram, d: &[u64]) -> Result<(), HistError> { h.update_from(d) }
    b_load(h: &RwLockHistogram) -> Option<Hist> { h.load() }
    b_cfg(h: &RwLockHistogram) -> (u8, u8) { (h.config().grouping_power(), h.config().max_value_power()) }
}

pub enum Val {
    None,
    C(u64),
    G(i64),
    /// A histogram metric's load() through `Value::Other`.
    H(Option<Hist>),
    Other,
}

#[inline(never)]
pub fn m_value(m: &dyn Metric) -> Val {
    match m.value() {
        None => Val::None,
        Some(Value::Counter(v)) => Val::C(v),
        Some(Value::Gauge(v)) => Val::G(v),
        Some(Value::Other(o)) => {
            if let Some(h) = o.downcast_ref::<AtomicHistogram>() {
                Val::H(h.load())
            } else if let Some(h) = o.downcast_ref::<RwLockHistogram>() {
                Val::H(h.load())
            } else {
                Val::Other
            }
        }
        _ => Val::Other,
    }
}
#[inline(never)]
pub fn m_enabled(m: &dyn Metric) -> bool {
    m.is_enabled()
}
#[inline(never)]
pub fn m_any(m: &dyn Metric) -> Option<&dyn Any> {
    m.as_any()
}

/// `&dyn Metric` of a type, made here so that its vtable is instrumented code.
macro_rules! dynof {
    ($($n:ident $t:ty;)*) => { $(
        #[inline(never)] pub fn $n(m: &$t) -> &dyn Metric { m }
    )* };
}
dynof! {
    dyn_c Counter; dyn_g Gauge; dyn_h AtomicHistogram; dyn_b RwLockHistogram;
    dyn_lw LazyF<Wide>; dyn_lc LazyF<Counter>; dyn_lg LazyF<Gauge>; dyn_lcp LazyCounter; dyn_lgp LazyGauge;
}

// ---------------------------------------------------------------- lazies
pub type LazyF<T> = Lazy<T, Box<dyn FnOnce() -> T + Send>>;
macro_rules! lazies {
    ($($t:ty, $new:ident $force:ident $deref:ident $get:ident;)*) => { $(
        #[inline(never)] pub fn $new(f: Box<dyn FnOnce() -> $t + Send>) -> LazyF<$t> { Lazy::new(f) }
        #[inline(never)] pub fn $force(l: &LazyF<$t>) -> &$t { Lazy::force(l) }
        #[inline(never)] pub fn $deref(l: &LazyF<$t>) -> &$t { l }
        #[inline(never)] pub fn $get(l: &LazyF<$t>) -> Option<&$t> { Lazy::get(l) }
    )* };
}
lazies! {
    Wide, lw_new lw_force lw_deref lw_get;
    Counter, lc_new lc_force lc_deref lc_get;
    Gauge, lg_new lg_force lg_deref lg_get;
    AtomicHistogram, lh_new lh_force lh_deref lh_get;
}
/// Exclusive access.
#[inline(never)]
pub fn lw_get_mut(l: &mut LazyF<Wide>) -> Option<&mut Wide> {
    Lazy::get_mut(l)
}
#[inline(never)]
pub fn lw_deref_mut(l: &mut LazyF<Wide>) -> &mut Wide {
    l
}
/// A lazy made by `Default`.
#[inline(never)]
pub fn lcp_default() -> LazyCounter {
    Lazy::default()
}
/// Lazies of function-pointer flavour (as in statics).
#[inline(never)]
pub fn lcp_new(f: fn() -> Counter) -> LazyCounter {
    Lazy::new(f)
}
#[inline(never)]
pub fn lcp_deref(l: &LazyCounter) -> &Counter {
    l
}
#[inline(never)]
pub fn lcp_get(l: &LazyCounter) -> Option<&Counter> {
    Lazy::get(l)
}
#[inline(never)]
pub fn lgp_new(f: fn() -> Gauge) -> LazyGauge {
    Lazy::new(f)
}
#[inline(never)]
pub fn lgp_deref(l: &LazyGauge) -> &Gauge {
    l
}
#[inline(never)]
pub fn lgp_get(l: &LazyGauge) -> Option<&Gauge> {
    Lazy::get(l)
}

// ---------------------------------------------------------------- dynamic metrics
pub enum Inner {
    C(Counter),
    G(Gauge),
    H(AtomicHistogram),
    B(RwLockHistogram),
    P(Probe),
    O(Opaque),
    LC(LazyCounter),
    LG(LazyGauge),
    LW(LazyF<Wide>),
    LH(LazyF<AtomicHistogram>),
    Z(Zero),
    A(Aligned),
}

/// A dynamic metric's handle; destroyed only by code of this crate.
pub struct Handle(std::mem::ManuallyDrop<HandleInner>);
impl Drop for Handle {
    #[inline(never)]
    fn drop(&mut self) {
        unsafe { std::mem::ManuallyDrop::drop(&mut self.0) }
    }
}
fn handle(h: HandleInner) -> Handle {
    Handle(std::mem::ManuallyDrop::new(h))
}

pub enum HandleInner {
    C(DynBoxedMetric<Counter>),
    G(DynBoxedMetric<Gauge>),
    H(DynBoxedMetric<AtomicHistogram>),
    B(DynBoxedMetric<RwLockHistogram>),
    P(DynBoxedMetric<Probe>),
    O(DynBoxedMetric<Opaque>),
    LC(DynBoxedMetric<LazyCounter>),
    LG(DynBoxedMetric<LazyGauge>),
    LW(DynBoxedMetric<LazyF<Wide>>),
    LH(DynBoxedMetric<LazyF<AtomicHistogram>>),
    Z(DynBoxedMetric<Zero>),
    A(DynBoxedMetric<Aligned>),
    Own(DynBoxedMetric<Owner>),
    PinZ(Pin<Box<DynPinnedMetric<Zero>>>),
    PinC(Pin<Box<DynPinnedMetric<Counter>>>),
    PinG(Pin<Box<DynPinnedMetric<Gauge>>>),
    PinP(Pin<Box<DynPinnedMetric<Probe>>>),
    PinH(Pin<Box<DynPinnedMetric<AtomicHistogram>>>),
    /// Pinned metrics side by side in one allocation.
    Row(Pin<Box<[DynPinnedMetric<Counter>; 3]>>),
}

pub struct Spec {
    pub name: Cow<'static, str>,
    pub desc: Option<Cow<'static, str>>,
    pub meta: Vec<(String, String)>,
    pub fmt: Option<FmtFn>,
    pub tag: Option<u64>,
    pub note: Option<String>,
}

fn draft_fmt(_: &MetricEntry, _: Format) -> String {
    "draft".to_string()
}
#[inline(never)]
fn builder(s: Spec) -> MetricBuilder {
    // some are described twice: what was said last counts
    let draft = s.name.bytes().last().is_some_and(|x| x % 4 == 1);
    let mut b = MetricBuilder::new(s.name);
    if draft {
        if s.desc.is_some() {
            b = b.description("draft");
        }
        for (k, _) in s.meta.iter().take(2) {
            b = b.metadata(k.clone(), "draft");
        }
        if s.fmt.is_some() {
            b = b.formatter(draft_fmt);
        }
        if s.tag.is_some() {
            b = b.provide(Tag(u64::MAX));
        }
        if s.note.is_some() {
            b = b.provide(Note("draft".to_string()));
        }
    }
    if let Some(d) = s.desc {
        b = b.description(d);
    }
    for (k, v) in s.meta {
        b = b.metadata(k, v);
    }
    if let Some(f) = s.fmt {
        b = b.formatter(f);
    }
    if let Some(t) = s.tag {
        b = b.provide(Tag(t));
    }
    if let Some(n) = s.note {
        b = b.provide(Note(n));
    }
    b
}

#[inline(never)]
pub fn build(s: Spec, m: Inner) -> Handle {
    let b = builder(s);
    handle(match m {
        Inner::C(m) => HandleInner::C(b.build(m)),
        Inner::G(m) => HandleInner::G(b.build(m)),
        Inner::H(m) => HandleInner::H(b.build(m)),
        Inner::B(m) => HandleInner::B(b.build(m)),
        Inner::P(m) => HandleInner::P(b.build(m)),
        Inner::O(m) => HandleInner::O(b.build(m)),
        Inner::LC(m) => HandleInner::LC(b.build(m)),
        Inner::LG(m) => HandleInner::LG(b.build(m)),
        Inner::LW(m) => HandleInner::LW(b.build(m)),
        Inner::LH(m) => HandleInner::LH(b.build(m)),
        Inner::Z(m) => HandleInner::Z(b.build(m)),
        Inner::A(m) => HandleInner::A(b.build(m)),
    })
}
/// Build a pinned metric without registering it; `mid` runs before `register`.
#[inline(never)]
pub fn build_pinned(s: Spec, m: Inner, mid: fn(), register: bool) -> Handle {
    let b = builder(s);
    macro_rules! pin {
        ($v:ident, $m:expr) => {{
            let (p, e) = b.build_pinned($m);
            let p = Box::pin(p);
            mid();
            if register {
                p.as_ref().register(e);
            }
            handle(HandleInner::$v(p))
        }};
    }
    match m {
        Inner::C(m) => pin!(PinC, m),
        Inner::G(m) => pin!(PinG, m),
        Inner::P(m) => pin!(PinP, m),
        Inner::H(m) => pin!(PinH, m),
        Inner::Z(m) => pin!(PinZ, m),
        _ => unreachable!(),
    }
}
/// A metric that owns another one.
#[inline(never)]
pub fn build_owner(s: [Spec; 2], id: u64, part: Probe) -> Handle {
    let [s, t] = s;
    let part = builder(t).build(part);
    handle(HandleInner::Own(builder(s).build(Owner { n: Counter::with_value(id), part })))
}
/// A counter with data whose destructor calls `bye`.
#[inline(never)]
pub fn build_parting(s: Spec, id: u64, bye: fn()) -> Handle {
    handle(HandleInner::C(builder(s).provide(Parting(bye)).build(Counter::with_value(id))))
}
/// The same, the data replacing other data.
#[inline(never)]
pub fn build_parting_twice(s: Spec, id: u64, bye: fn()) -> Handle {
    handle(HandleInner::C(builder(s).provide(Parting(bye)).provide(Parting(bye)).build(Counter::with_value(id))))
}
/// What never becomes a metric.
#[inline(never)]
pub fn abandon(s: Spec, bye: fn(), entry: bool) {
    let b = builder(s).provide(Parting(bye));
    if entry {
        drop(b.into_entry())
    } else {
        drop(b)
    }
}
/// Three pinned counters next to each other, registered in order.
#[inline(never)]
pub fn build_row(s: [Spec; 3], v: [u64; 3]) -> Handle {
    let mut e = Vec::new();
    let mut i = 0;
    let row = s.map(|s| {
        let (p, x) = builder(s).build_pinned(Counter::with_value(v[i]));
        i += 1;
        e.push(x);
        p
    });
    let row = Box::pin(row);
    for (i, x) in e.into_iter().enumerate() {
        // SAFETY: a field of something pinned that is never moved out
        unsafe { row.as_ref().map_unchecked(|r| &r[i]) }.register(x);
    }
    handle(HandleInner::Row(row))
}
fn entry_only(s: Spec) -> MetricEntry {
    let mut b = MetricBuilder::new(s.name);
    if let Some(d) = s.desc {
        b = b.description(d);
    }
    b.into_entry()
}
/// The deprecated constructors, which carry a name and a description only.
#[inline(never)]
#[allow(deprecated)]
pub fn build_old_boxed(s: Spec, m: Counter) -> Handle {
    handle(HandleInner::C(DynBoxedMetric::new(m, entry_only(s))))
}
#[inline(never)]
#[allow(deprecated)]
pub fn build_old_pinned(s: Spec, m: Probe) -> Handle {
    let p = Box::pin(DynPinnedMetric::new(m));
    p.as_ref().register(entry_only(s));
    handle(HandleInner::PinP(p))
}
/// The metric as its owner sees it (the i-th of a row).
#[inline(never)]
pub fn h_dyn(h: &Handle, i: usize) -> &dyn Metric {
    match &*h.0 {
        HandleInner::C(m) => &**m,
        HandleInner::G(m) => &**m,
        HandleInner::H(m) => &**m,
        HandleInner::B(m) => &**m,
        HandleInner::P(m) => &**m,
        HandleInner::O(m) => &**m,
        HandleInner::LC(m) => &**m,
        HandleInner::LG(m) => &**m,
        HandleInner::LW(m) => &**m,
        HandleInner::LH(m) => &**m,
        HandleInner::Z(m) => &**m,
        HandleInner::A(m) => &**m,
        HandleInner::Own(m) if i == 1 => &*m.part,
        HandleInner::Own(m) => &**m,
        HandleInner::PinZ(m) => &***m,
        HandleInner::PinC(m) => &***m,
        HandleInner::PinG(m) => &***m,
        HandleInner::PinP(m) => &***m,
        HandleInner::PinH(m) => &***m,
        HandleInner::Row(r) => &*r[i],
    }
}
/// Register a pinned metric again under `name`.
#[inline(never)]
pub fn reregister(h: &Handle, name: String) -> bool {
    let e = MetricBuilder::new(name).into_entry();
    match &*h.0 {
        HandleInner::PinC(p) => p.as_ref().register(e),
        HandleInner::PinG(p) => p.as_ref().register(e),
        HandleInner::PinP(p) => p.as_ref().register(e),
        HandleInner::PinH(p) => p.as_ref().register(e),
        HandleInner::PinZ(p) => p.as_ref().register(e),
        _ => return false,
    }
    true
}
#[inline(never)]
pub fn drop_handle(h: Handle) {
    drop(h)
}
/// The metric a handle owns, as the owner sees it.
#[inline(never)]
pub fn h_counter(h: &Handle) -> Option<&Counter> {
    match &*h.0 {
        HandleInner::C(m) => Some(m),
        HandleInner::PinC(m) => Some(m),
        _ => None,
    }
}
#[inline(never)]
pub fn h_gauge(h: &Handle) -> Option<&Gauge> {
    match &*h.0 {
        HandleInner::G(m) => Some(m),
        HandleInner::PinG(m) => Some(m),
        _ => None,
    }
}
#[inline(never)]
pub fn h_hist(h: &Handle) -> Option<&AtomicHistogram> {
    match &*h.0 {
        HandleInner::H(m) => Some(m),
        HandleInner::PinH(m) => Some(m),
        _ => None,
    }
}
#[inline(never)]
pub fn h_bulk(h: &Handle) -> Option<&RwLockHistogram> {
    match &*h.0 {
        HandleInner::B(m) => Some(m),
        _ => None,
    }
}
#[inline(never)]
pub fn h_probe(h: &Handle) -> Option<&Probe> {
    match &*h.0 {
        HandleInner::P(m) => Some(m),
        HandleInner::PinP(m) => Some(m),
        _ => None,
    }
}
#[inline(never)]
pub fn h_lazy_counter(h: &Handle) -> Option<&LazyCounter> {
    match &*h.0 {
        HandleInner::LC(m) => Some(m),
        _ => None,
    }
}
#[inline(never)]
pub fn h_lazy_gauge(h: &Handle) -> Option<&LazyGauge> {
    match &*h.0 {
        HandleInner::LG(m) => Some(m),
        _ => None,
    }
}
#[inline(never)]
pub fn h_lazy_hist(h: &Handle) -> Option<&LazyF<AtomicHistogram>> {
    match &*h.0 {
        HandleInner::LH(m) => Some(m),
        _ => None,
    }
}
#[inline(never)]
pub fn h_lazy_wide(h: &Handle) -> Option<&LazyF<Wide>> {
    match &*h.0 {
        HandleInner::LW(m) => Some(m),
        _ => None,
    }
}

// ---------------------------------------------------------------- views
wrap! {
    view() -> Metrics { metriken::metrics() }
    view_close(v: Metrics) -> () { drop(v) }
    v_statics(v: &Metrics) -> &'static [MetricEntry] { v.static_metrics() }
}
#[inline(never)]
pub fn v_iter(v: &Metrics) -> MetricsIter<'_> {
    v.iter()
}
#[inline(never)]
pub fn v_dyn(v: &Metrics) -> DynMetricsIter<'_> {
    v.dynamic_metrics()
}
macro_rules! walks {
    ($t:ident, $next:ident $nb:ident $nth:ident $nthb:ident $sh:ident $cnt:ident $fold:ident $rfold:ident $last:ident) => {
        #[inline(never)] pub fn $next<'a>(i: &mut $t<'a>) -> Option<&'a MetricEntry> { i.next() }
        #[inline(never)] pub fn $nb<'a>(i: &mut $t<'a>) -> Option<&'a MetricEntry> { i.next_back() }
        #[inline(never)] pub fn $nth<'a>(i: &mut $t<'a>, n: usize) -> Option<&'a MetricEntry> { i.nth(n) }
        #[inline(never)] pub fn $nthb<'a>(i: &mut $t<'a>, n: usize) -> Option<&'a MetricEntry> { i.nth_back(n) }
        #[inline(never)] pub fn $sh(i: &$t) -> (usize, Option<usize>) { i.size_hint() }
        #[inline(never)] pub fn $cnt(i: $t) -> usize { i.count() }
        #[inline(never)] pub fn $last<'a>(i: $t<'a>) -> Option<&'a MetricEntry> { i.last() }
        #[inline(never)] pub fn $fold<'a>(i: $t<'a>, f: &mut dyn FnMut(&'a MetricEntry)) { i.fold((), |_, e| f(e)) }
        #[inline(never)] pub fn $rfold<'a>(i: $t<'a>, f: &mut dyn FnMut(&'a MetricEntry)) { i.rfold((), |_, e| f(e)) }
    };
}
walks!(MetricsIter, i_next i_next_back i_nth i_nth_back i_size i_count i_fold i_rfold i_last);
walks!(DynMetricsIter, d_next d_next_back d_nth d_nth_back d_size d_count d_fold d_rfold d_last);
/// A plain `for` loop over `&Metrics`.
#[inline(never)]
pub fn v_for<'a>(v: &'a Metrics, f: &mut dyn FnMut(&'a MetricEntry)) {
    for e in v {
        f(e)
    }
}
#[inline(never)]
pub fn d_len(i: &DynMetricsIter) -> usize {
    i.len()
}

// ---------------------------------------------------------------- entries
#[inline(never)]
pub fn e_name(e: &MetricEntry) -> &str {
    e.name()
}
#[inline(never)]
pub fn e_desc(e: &MetricEntry) -> Option<&str> {
    e.description()
}
#[inline(never)]
pub fn e_metric(e: &MetricEntry) -> &dyn Metric {
    e.metric()
}
#[inline(never)]
pub fn e_is(e: &MetricEntry, m: &dyn Metric) -> bool {
    e.is(m)
}
/// Whether the entry takes the first field of its metric for the metric.
#[inline(never)]
pub fn e_is_part(e: &MetricEntry) -> Option<bool> {
    let a = e.metric().as_any()?;
    a.downcast_ref::<Aligned>().map(|a| e.is(&a.0)).or_else(|| a.downcast_ref::<Owner>().map(|a| e.is(&a.n) || e.is(&*a.part)))
}
#[inline(never)]
pub fn e_value(e: &MetricEntry) -> Val {
    m_value(e.metric())
}
#[inline(never)]
pub fn e_enabled(e: &MetricEntry) -> bool {
    e.is_enabled()
}
#[inline(never)]
pub fn e_fmt(e: &MetricEntry, prom: bool) -> String {
    e.formatted(if prom { Format::Prometheus } else { Format::Simple })
}
#[inline(never)]
pub fn e_default_fmt(e: &MetricEntry, prom: bool) -> String {
    metriken::default_formatter(e, if prom { Format::Prometheus } else { Format::Simple })
}
#[inline(never)]
pub fn e_tag(e: &MetricEntry) -> Option<u64> {
    e.request_ref::<Tag>().map(|t| t.0)
}
#[inline(never)]
pub fn e_note(e: &MetricEntry) -> Option<&str> {
    e.request_ref::<Note>().map(|t| t.0.as_str())
}
#[inline(never)]
pub fn e_own(e: &MetricEntry) -> Option<u64> {
    e.request_value::<Own>().map(|t| t.0)
}
#[inline(never)]
pub fn e_slice(e: &MetricEntry) -> Option<&[u64]> {
    e.request_ref::<[u64]>()
}
/// The id of the probe behind this entry, if it is one.
#[inline(never)]
pub fn e_probe(e: &MetricEntry) -> Option<u64> {
    e.as_any().and_then(|a| a.downcast_ref::<Probe>()).map(|p| p.id)
}
#[inline(never)]
pub fn e_meta(e: &MetricEntry, f: &mut dyn FnMut(&str, &str)) {
    for (k, v) in e.metadata() {
        f(k, v)
    }
}
/// The same by folding and by stepping with nth and a clone; None if these disagree with len().
#[inline(never)]
pub fn e_meta_ways(e: &MetricEntry) -> Option<[Vec<(String, String)>; 2]> {
    let m = e.metadata();
    let own = |(k, v): (&str, &str)| (k.to_string(), v.to_string());
    let a = m.iter().fold(Vec::new(), |mut a, x| {
        a.push(own(x));
        a
    });
    let mut b = Vec::new();
    let mut it = m.iter();
    let mut left = m.len();
    while left > 0 {
        if it.len() != left || it.size_hint() != (left, Some(left)) || it.clone().count() != left {
            return None;
        }
        b.push(own(if left % 2 == 0 {
            // a clone may run ahead without touching the original
            let mut c = it.clone();
            let x = c.nth(1)?;
            let y = it.next()?;
            if it.clone().next() != Some(x) {
                return None;
            }
            y
        } else {
            it.nth(0)?
        }));
        left -= 1;
    }
    if it.next().is_some() || it.nth(0).is_some() || it.len() != 0 || m.iter().nth(m.len()).is_some() {
        return None;
    }
    Some([a, b])
}
#[inline(never)]
pub fn e_meta_len(e: &MetricEntry) -> (usize, bool, usize) {
    (e.metadata().len(), e.metadata().is_empty(), e.metadata().iter().count())
}
#[inline(never)]
pub fn e_meta_get<'a>(e: &'a MetricEntry, k: &str) -> Option<&'a str> {
    e.metadata().get(k)
}
#[inline(never)]
pub fn e_meta_has(e: &MetricEntry, k: &str) -> bool {
    e.metadata().contains_key(k)
}

// ---------------------------------------------------------------- snapshots
#[inline(never)]
pub fn snapshotter(filter: Option<fn(&MetricEntry) -> bool>, meta: &[(String, String)]) -> Snapshotter {
    let mut b = SnapshotterBuilder::new();
    if let Some(f) = filter {
        b = b.filter(f);
    }
    for (k, v) in meta {
        b = b.metadata(k.clone(), v.clone());
    }
    b.build()
}
#[inline(never)]
pub fn snap(s: &Snapshotter) -> Snapshot {
    s.snapshot()
}
