//! The simulated system: threads of callers that capture, borrow, clone,
//! buffer, share, inspect and drop bags, with faults injected into the sources,
//! the consumers and the allocator, judged against the reference model.

use crate::alloc::{self, harness, sut, tracked, OOM_FIRED, OOM_IN};
use crate::profile::{Profile, RunCfg};
use crate::refm::{self, Cl, Content, Cv, Lk, SeqExp, St};
use crate::rt::{self, chance, count, draw, pick, trace, violate, FaultKind, Injected, Op, C};
use crate::sink::{Bare, Coll, Ser, SerLog, SvalSink, TextSink, VisitSink, VERDICTS};
use crate::spec::*;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::sync::{Arc, Mutex, MutexGuard};
use value_bag::{OwnedValueBag, ValueBag};
use value_bag_serde1::lib::Serialize as _;

// ---------------------------------------------------------------- handles

/// A handle on an owned bag.
pub struct OH {
    pub bag: ManuallyDrop<OwnedValueBag>,
    pub content: Content,
    payloads: Vec<Id>,
    name: u32,
}

/// A handle on a borrowing (or shared-capturing) bag; stays on its thread.
struct BH {
    bag: ManuallyDrop<ValueBag<'static>>,
    content: Content,
    counts: Vec<Id>,
    /// borrowed from a captured source rather than from an owned bag
    direct: bool,
    _keep: Keep,
    name: u32,
}

#[derive(Clone)]
enum Keep {
    No,
    Src(#[allow(dead_code)] Arc<Obj>),
    Own(#[allow(dead_code)] Arc<OH>),
}

/// Something an inspection lent out, and what it has to be for as long as it is lent.
struct Held {
    what: Lent,
    _keep: Lender,
    name: u32,
}

enum Lent {
    Str(&'static str, String),
    /// with the generations of the sources it was read at
    Err(&'static (dyn std::error::Error + 'static), String, Vec<(Id, u32)>),
    Obj(&'static Obj, Id),
}

/// What has to stay alive for the loan to stand.
enum Lender {
    Captured(#[allow(dead_code)] Keep),
    Bag(#[allow(dead_code)] Rc<BH>),
    Owned(#[allow(dead_code)] Arc<OH>),
}

struct Src {
    obj: Arc<Obj>,
    spec: Arc<Spec>,
    name: u32,
}

static SRCS: Mutex<Vec<Src>> = Mutex::new(Vec::new());
static OHS: Mutex<Vec<Arc<OH>>> = Mutex::new(Vec::new());
/// every identifier that may appear in generated content
static IDS: Mutex<Vec<Id>> = Mutex::new(Vec::new());
static CFG: Mutex<Option<RunCfg>> = Mutex::new(None);
static NAMES: AtomicU32 = AtomicU32::new(0);
/// how often loans are kept, in percent
static HOLD: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static BHS: RefCell<Vec<Rc<BH>>> = const { RefCell::new(Vec::new()) };
    static HELD: RefCell<Vec<Held>> = const { RefCell::new(Vec::new()) };
    pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_TEARDOWN: Cell<bool> = const { Cell::new(false) };
}

fn lock<T>(m: &'static Mutex<T>) -> MutexGuard<'static, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

fn cfg() -> RunCfg {
    lock(&CFG).clone().expect("cfg")
}

fn name() -> u32 {
    NAMES.fetch_add(1, Relaxed)
}

fn depart(ids: &[Id]) {
    let mut r = reg();
    for i in ids {
        r[*i as usize].handles -= 1;
        r[*i as usize].inflight += 1;
    }
}

fn arrive(ids: &[Id]) {
    let mut r = reg();
    for i in ids {
        r[*i as usize].handles += 1;
    }
}

fn settle(ids: &[Id]) {
    for i in ids {
        let rec = {
            let mut r = reg();
            let e = &mut r[*i as usize];
            e.inflight -= 1;
            e.clone()
        };
        if rec.handles == 0 && rec.inflight == 0 && rec.built && rec.drops == 0 {
            violate("late-drop", || format!("shared value #{i} is still alive after its last handle is gone"));
        }
    }
}

impl Drop for OH {
    fn drop(&mut self) {
        harness(|| {
            trace(|| format!("drop o{}", self.name));
            depart(&self.payloads);
            let bag = unsafe { ManuallyDrop::take(&mut self.bag) };
            let d = exec("drop", Plan::none(), move || drop(bag));
            no_evals("dropping an owned bag", &d.op);
            settle(&self.payloads);
        })
    }
}

impl Drop for BH {
    fn drop(&mut self) {
        harness(|| {
            trace(|| format!("drop b{}", self.name));
            depart(&self.counts);
            let bag = unsafe { ManuallyDrop::take(&mut self.bag) };
            let d = exec("drop", Plan::none(), move || drop(bag));
            no_evals("dropping a bag", &d.op);
            settle(&self.counts);
        })
    }
}

pub fn release_oh(b: Arc<OH>) {
    drop(b);
}

// ---------------------------------------------------------------- one operation

pub struct Plan {
    op: Op,
    oom: i64,
}

impl Plan {
    fn none() -> Plan {
        Plan { op: Op::default(), oom: -1 }
    }
}

struct Done<R> {
    r: Option<R>,
    op: Op,
    oom: bool,
    panicked: bool,
}

impl<R> Done<R> {
    fn faulted(&self) -> bool {
        self.panicked || self.oom || self.op.sink_fired || !self.op.src_fired.is_empty()
    }
}

fn exec<R>(what: &str, plan: Plan, f: impl FnOnce() -> R) -> Done<R> {
    let planned = plan.oom >= 0 || plan.op.src_fault.is_some() || plan.op.sink_fault.is_some();
    rt::push_op(plan.op);
    let old_oom = OOM_IN.with(|c| c.replace(plan.oom));
    let old_fired = OOM_FIRED.with(|c| c.replace(false));
    rt::inside(1);
    let r = catch_unwind(AssertUnwindSafe(|| sut(f)));
    rt::inside(-1);
    OOM_IN.with(|c| c.set(old_oom));
    let oom = OOM_FIRED.with(|c| c.replace(old_fired));
    let op = rt::pop_op();
    if oom {
        count(C::alloc_failure);
        trace(|| "   fault: an allocation failed".into());
    }
    rt::note(0x0D0E ^ ((op.src_steps as u64) << 20) ^ ((op.sink_events as u64) << 40));
    let mut done = Done { r: None, op, oom, panicked: false };
    match r {
        Ok(r) => {
            if done.op.panic_fired {
                violate(&format!("{what}.swallowed"), || "a panic of user code did not reach the caller".into());
            }
            done.r = Some(r);
        }
        Err(p) => {
            done.panicked = true;
            if !p.is::<Injected>() {
                let m = PANIC_MSG.with(|m| m.borrow().clone());
                violate(&format!("{what}.panic"), || format!("the operation panicked on its own: {m}"));
            }
        }
    }
    if planned && !done.faulted() {
        count(C::fault_not_reached);
    }
    done
}

fn no_evals(what: &str, op: &Op) {
    count(C::evaluations_checked);
    if let Some((id, _)) = op.evals.first() {
        violate("eval.handle", || format!("{what} evaluated source #{id}"));
    }
    if let Some(id) = op.read.first() {
        violate("eval.handle", || format!("{what} read sequence element #{id}"));
    }
}

/// Rough number of steps user code takes.
fn steps(s: &Spec) -> u32 {
    fn t(t: &Text) -> u32 {
        t.0.len() as u32 + 1
    }
    fn sn(n: &SN) -> u32 {
        1 + match n {
            SN::Text(x, _) => t(x),
            SN::Bin(_) => 1,
            SN::Seq(v) | SN::Tuple(v) => 1 + v.iter().map(sn).sum::<u32>(),
            SN::Map(v) => 1 + v.iter().map(|(a, b)| sn(a) + sn(b)).sum::<u32>(),
            SN::Record(v) => 1 + v.iter().map(|(_, b)| sn(b)).sum::<u32>(),
            SN::Tagged(_, x) | SN::Some(x) => sn(x),
            _ => 0,
        }
    }
    fn dn(n: &DN) -> u32 {
        1 + match n {
            DN::Some(x) | DN::NewStruct(_, x) | DN::NewVariant(_, _, x) => dn(x),
            DN::Seq(v) | DN::Tuple(v) | DN::TupleStruct(_, v) | DN::TupleVariant(_, _, v) => 1 + v.iter().map(dn).sum::<u32>(),
            DN::Map(v) => 1 + v.iter().map(|(a, b)| dn(a) + dn(b)).sum::<u32>(),
            DN::Struct(_, v) | DN::StructVariant(_, _, v) => 1 + v.iter().map(|(_, b)| dn(b)).sum::<u32>(),
            _ => 0,
        }
    }
    let own = match &s.body {
        Body::Debug(x) | Body::Display(x) | Body::Err(x) => t(x),
        Body::Sval(n) => sn(n) + 1,
        Body::Serde(n) => dn(n) + 1,
        Body::Fill | Body::FillPrim(_) => 2,
        Body::Bag(c) => steps(&c.spec),
        _ => 0,
    };
    own + s.kids.iter().map(|k| steps(k)).sum::<u32>()
}

fn panic_steps(s: &Spec) -> u32 {
    let own = match &s.body {
        Body::Seq => 1 + s.kids.len() as u32,
        Body::Err(_) => 1,
        Body::Bag(c) => panic_steps(&c.spec),
        _ => 0,
    };
    own + s.kids.iter().map(|k| panic_steps(k)).sum::<u32>()
}

fn expected_text(lk: Lk, c: &Content, o: &Obs) -> String {
    let mut t = String::new();
    match o {
        Obs::Flag(k) => refm::styled(lk, &c.spec, *k, &mut t),
        _ => refm::text(lk, &c.spec, matches!(o, Obs::Debug), &mut t),
    }
    t
}

/// How many calls the consumer would get.
fn sink_size(c: &Content, o: &Obs) -> u32 {
    let lk = Lk { c, evals: &[], first: false, failed_at: &[] };
    match o {
        Obs::Display | Obs::Debug | Obs::Flag(_) => expected_text(lk, c, o).len() as u32,
        Obs::Sval(_) => {
            let mut s = SvalSink::new(false);
            let _ = refm::sval_log(lk, &c.spec, &mut s);
            s.events
        }
        Obs::Serde => refm::serde_log(lk, &c.spec).1,
        Obs::Visit(_) => 1,
        Obs::Seq(_) => match refm::seq_exp(lk, &c.spec, false) {
            SeqExp::Slots(v) => v.len() as u32,
            _ => 2,
        },
        _ => 0,
    }
}

pub const FAULTS: [&str; 7] = ["none", "sink error", "source error", "lasting source error", "source panic", "sink panic", "allocation failure"];

/// Decide what goes wrong during an operation.
fn plan(cfg: &RunCfg, c: &Content, obs: Option<&Obs>, allow: [bool; 7]) -> Plan {
    let mut p = Plan::none();
    let live = !c.may_eval().is_empty();
    let mut wt = cfg.faults;
    for i in 1..7 {
        if !allow[i] || (!live && (i == 2 || i == 3)) {
            wt[i] = 0;
        }
    }
    let kind = pick(&wt);
    match kind {
        1 | 5 => {
            let n = obs.map(|o| sink_size(c, o)).unwrap_or(0);
            // the last position is where the complete output ends
            let k = draw(n.max(1));
            p.op.sink_fault = Some((k, if kind == 1 { FaultKind::Err } else { FaultKind::Panic }));
        }
        2 | 3 => {
            let n = steps(&c.spec);
            let k = draw(n.max(1));
            p.op.src_fault = Some((k, if kind == 2 { FaultKind::Err } else { FaultKind::Lasting }));
        }
        4 => {
            let n = steps(&c.spec) + panic_steps(&c.spec);
            let k = draw(n.max(1));
            p.op.src_fault = Some((k, FaultKind::Panic));
        }
        6 => {
            p.oom = draw([1, 2, 4, 8, 20][pick(&[3, 3, 3, 2, 1])]) as i64;
        }
        _ => {}
    }
    if matches!(kind, 2 | 3 | 4) && allow[1] && chance(12) {
        // the consumer fails as well, whichever comes first
        let n = obs.map(|o| sink_size(c, o)).unwrap_or(0);
        if n > 0 {
            p.op.sink_fault = Some((draw(n), FaultKind::Err));
        }
    }
    if cfg.reenter > 0 && rt::op_depth() < MAX_DEPTH && chance(cfg.reenter) {
        let n = steps(&c.spec) + obs.map(|o| sink_size(c, o)).unwrap_or(0).min(40) + 1;
        p.op.reenter_at = Some(draw(n));
    }
    if kind != 0 {
        trace(|| format!("   planned: {} {:?} {:?} {}", FAULTS[kind], p.op.src_fault, p.op.sink_fault, p.oom));
    }
    p
}

// ---------------------------------------------------------------- observing

#[derive(Clone, Debug)]
pub enum Obs {
    Display,
    Debug,
    Flag(u32),
    Sval(u32),
    Serde,
    Visit(u32),
    Cast(usize),
    Seq(usize),
    Error(bool),
    Down,
    Empty,
}

pub const NOBS: usize = 10;

impl Obs {
    fn pick(w: &[u32; NOBS]) -> Obs {
        match pick(w) {
            0 => if draw(4) == 3 { Obs::Flag(draw(refm::STYLES)) } else { Obs::Display },
            1 => Obs::Debug,
            2 => Obs::Sval(draw(4).saturating_sub(1)),
            3 => Obs::Serde,
            4 => Obs::Visit(draw(4)),
            5 if holding() && draw(4) > 0 => Obs::Cast([9, 8, 26, 27][draw(4) as usize]),
            6 if holding() && draw(4) > 0 => Obs::Seq(9 - draw(2) as usize),
            5 => Obs::Cast(draw(refm::CAST_NAMES.len() as u32) as usize),
            6 => Obs::Seq(draw(10) as usize),
            7 => Obs::Error(draw(2) == 1),
            8 => Obs::Down,
            _ => Obs::Empty,
        }
    }

    fn class(&self) -> &'static str {
        match self {
            Obs::Display | Obs::Debug | Obs::Flag(_) => "text",
            Obs::Sval(_) => "sval",
            Obs::Serde => "serde",
            Obs::Visit(_) => "visit",
            Obs::Cast(_) => "cast",
            Obs::Seq(_) => "seq",
            Obs::Error(_) => "error",
            Obs::Down => "downcast",
            Obs::Empty => "empty",
        }
    }
}

struct Seen {
    text: TextSink,
    sval: SvalSink,
    serde: SerLog,
    visit: VisitSink,
    ok: bool,
    err: Option<String>,
    cast: Cv,
    seq: Option<Vec<Cv>>,
    chain: Option<Vec<String>>,
    addr: Option<usize>,
    empty: bool,
    lent: Vec<&'static str>,
    lent_err: Option<&'static (dyn std::error::Error + 'static)>,
}

impl Seen {
    fn new(whole: bool, verdict: usize) -> Seen {
        Seen {
            text: TextSink { out: String::new(), live: true, whole },
            sval: SvalSink::new(true),
            serde: SerLog::new(true),
            visit: VisitSink { calls: vec![], borrowed: 0, verdict, lent: vec![], lent_err: None },
            ok: false,
            err: None,
            cast: Cv::None,
            seq: None,
            chain: None,
            addr: None,
            empty: false,
            lent: vec![],
            lent_err: None,
        }
    }

    /// Take note of something lent out, whose real lifetime `hold` looks after.
    fn lend(&mut self, s: Option<&str>) {
        if let Some(s) = s {
            self.lent.push(unsafe { &*(s as *const str) });
        }
    }
}

fn seq_of<T>(v: Option<Coll<T>>, f: impl Fn(&T) -> Cv) -> Option<Vec<Cv>> {
    // converted as harness code, released as library code
    let out = harness(|| v.as_ref().map(|c| c.0.iter().map(|x| f(x)).collect()));
    drop(v);
    out
}

fn opt<T: Copy>(v: Option<T>, f: impl Fn(T) -> Cv) -> Cv {
    v.map(f).unwrap_or(Cv::None)
}

fn look<'v>(b: &ValueBag<'v>, o: &Obs, s: &mut Seen) {
    match o {
        Obs::Display => s.ok = write!(s.text, "{b}").is_ok(),
        Obs::Debug => s.ok = write!(s.text, "{b:?}").is_ok(),
        Obs::Flag(k) => s.ok = refm::write_styled(&mut s.text, *k, b).is_ok(),
        Obs::Sval(0) => s.ok = value_bag_sval2::lib::stream_computed(&mut s.sval, b).is_ok(),
        Obs::Sval(1) => s.ok = value_bag_sval2::lib::stream(&mut s.sval, b).is_ok(),
        Obs::Sval(_) => s.ok = value_bag_sval2::lib_ref::stream_ref(&mut s.sval, b.clone()).is_ok(),
        Obs::Serde => s.ok = b.serialize(Ser(&s.serde)).is_ok(),
        Obs::Visit(how) => {
            let r = match how {
                0 => b.visit(&mut s.visit),
                1 => b.visit(Bare(&mut s.visit)),
                2 => b.visit(&mut &mut s.visit),
                _ => b.visit(&mut s.visit as &mut dyn value_bag::visit::Visit<'v>),
            };
            harness(|| {
                s.ok = r.is_ok();
                s.err = r.err().map(|e| e.to_string());
            });
        }
        Obs::Cast(k) => {
            s.cast = match k {
                0 => opt(b.to_u64(), |v| refm::uint_cv(v as u128)),
                1 => opt(b.to_i64(), |v| refm::int_cv(v as i128)),
                2 => opt(b.to_u128(), refm::uint_cv),
                3 => opt(b.to_i128(), refm::int_cv),
                4 => opt(b.to_f64(), refm::fbits),
                5 => refm::fbits(b.as_f64()),
                6 => opt(b.to_bool(), Cv::B),
                7 => opt(b.to_char(), Cv::C),
                8 => {
                    let v = b.to_str();
                    if let Some(Cow::Borrowed(v)) = &v {
                        harness(|| s.lend(Some(v)));
                    }
                    let r = harness(|| v.as_deref().map(|s| Cv::S(s.to_string())).unwrap_or(Cv::None));
                    drop(v);
                    r
                }
                9 => {
                    let v = b.to_borrowed_str();
                    harness(|| s.lend(v));
                    harness(|| v.map(|s| Cv::S(s.to_string())).unwrap_or(Cv::None))
                }
                10 => opt(u8::try_from(b.clone()).ok(), |v| refm::int_cv(v as i128)),
                11 => opt(u16::try_from(b.clone()).ok(), |v| refm::int_cv(v as i128)),
                12 => opt(u32::try_from(b.clone()).ok(), |v| refm::int_cv(v as i128)),
                13 => opt(usize::try_from(b.clone()).ok(), |v| refm::int_cv(v as i128)),
                14 => opt(i8::try_from(b.clone()).ok(), |v| refm::int_cv(v as i128)),
                15 => opt(i16::try_from(b.clone()).ok(), |v| refm::int_cv(v as i128)),
                16 => opt(i32::try_from(b.clone()).ok(), |v| refm::int_cv(v as i128)),
                17 => opt(isize::try_from(b.clone()).ok(), |v| refm::int_cv(v as i128)),
                18 => opt(u64::try_from(b.clone()).ok(), |v| refm::uint_cv(v as u128)),
                19 => opt(i64::try_from(b.clone()).ok(), |v| refm::int_cv(v as i128)),
                20 => opt(u128::try_from(b.clone()).ok(), refm::uint_cv),
                21 => opt(i128::try_from(b.clone()).ok(), refm::int_cv),
                22 => opt(f64::try_from(b.clone()).ok(), refm::fbits),
                23 => opt(bool::try_from(b.clone()).ok(), Cv::B),
                24 => opt(char::try_from(b.clone()).ok(), Cv::C),
                25 => {
                    let v = String::try_from(b.clone()).ok();
                    let r = harness(|| v.as_ref().map(|s| Cv::S(s.to_string())).unwrap_or(Cv::None));
                    drop(v);
                    r
                }
                26 => {
                    let v = Cow::<'v, str>::try_from(b.clone()).ok();
                    if let Some(Cow::Borrowed(v)) = &v {
                        harness(|| s.lend(Some(v)));
                    }
                    let r = harness(|| v.as_deref().map(|s| Cv::S(s.to_string())).unwrap_or(Cv::None));
                    drop(v);
                    r
                }
                _ => {
                    let v = <&'v str>::try_from(b.clone()).ok();
                    harness(|| s.lend(v));
                    harness(|| v.map(|s| Cv::S(s.to_string())).unwrap_or(Cv::None))
                }
            }
        }
        Obs::Seq(k) => {
            s.seq = match k {
                0 => seq_of(b.to_u64_seq::<Coll<Option<u64>>>(), |v| opt(*v, |v| refm::uint_cv(v as u128))),
                1 => seq_of(b.to_i64_seq::<Coll<Option<i64>>>(), |v| opt(*v, |v| refm::int_cv(v as i128))),
                2 => seq_of(b.to_u128_seq::<Coll<Option<u128>>>(), |v| opt(*v, refm::uint_cv)),
                3 => seq_of(b.to_i128_seq::<Coll<Option<i128>>>(), |v| opt(*v, refm::int_cv)),
                4 => seq_of(b.to_f64_seq::<Coll<Option<f64>>>(), |v| opt(*v, refm::fbits)),
                5 => seq_of(Some(b.as_f64_seq::<Coll<f64>>()), |v| refm::fbits(*v)),
                6 => seq_of(b.to_bool_seq::<Coll<Option<bool>>>(), |v| opt(*v, Cv::B)),
                7 => seq_of(b.to_char_seq::<Coll<Option<char>>>(), |v| opt(*v, Cv::C)),
                8 => {
                    let v = b.to_str_seq::<Coll<Option<Cow<'v, str>>>>();
                    harness(|| {
                        for x in v.iter().flat_map(|v| &v.0) {
                            if let Some(Cow::Borrowed(x)) = x {
                                s.lend(Some(x));
                            }
                        }
                    });
                    seq_of(v, |v| v.as_deref().map(|s| Cv::S(s.to_string())).unwrap_or(Cv::None))
                }
                _ => {
                    let v = b.to_borrowed_str_seq::<Coll<Option<&'v str>>>();
                    harness(|| v.iter().flat_map(|v| &v.0).for_each(|x| s.lend(*x)));
                    seq_of(v, |v| v.map(|s| Cv::S(s.to_string())).unwrap_or(Cv::None))
                }
            }
        }
        Obs::Error(converted) => {
            let e = if *converted { <&'v (dyn std::error::Error + 'static)>::try_from(b.clone()).ok() } else { b.to_borrowed_error() };
            s.lent_err = e.map(|e| unsafe { &*(e as *const (dyn std::error::Error + 'static)) });
            harness(|| {
                s.chain = e.map(|e| {
                    let mut out = vec![];
                    let mut cur = Some(e);
                    while let Some(e) = cur {
                        let mut t = TextSink { out: String::new(), live: false, whole: false };
                        let ok = write!(t, "{e}").is_ok();
                        out.push(if ok { t.out } else { format!("{}!failed", t.out) });
                        cur = e.source();
                    }
                    out
                })
            });
        }
        Obs::Down => {
            s.addr = b.downcast_ref::<Obj>().map(|o| o as *const Obj as usize);
            struct Other;
            if b.downcast_ref::<Other>().is_some() || b.is::<Other>() {
                violate("downcast.healthy", || "a value was downcast to a type it does not have".into());
            }
            if s.addr.is_some() != b.is::<Obj>() {
                violate("downcast.healthy", || "`is` and `downcast_ref` disagree".into());
            }
        }
        Obs::Empty => s.empty = b.is_empty(),
    }
}

fn through(b: &ValueBag<'_>, chain: &[u32], o: &Obs, s: &mut Seen) {
    match chain.split_first() {
        None => look(b, o, s),
        Some((0, rest)) => through(&b.by_ref(), rest, o, s),
        Some((_, rest)) => {
            let c = b.clone();
            through(&c, rest, o, s)
        }
    }
}

fn look_own(b: &OwnedValueBag, o: &Obs, s: &mut Seen) -> bool {
    match o {
        Obs::Display => s.ok = write!(s.text, "{b}").is_ok(),
        Obs::Debug => s.ok = write!(s.text, "{b:?}").is_ok(),
        Obs::Flag(k) => s.ok = refm::write_styled(&mut s.text, *k, b).is_ok(),
        Obs::Sval(_) => s.ok = value_bag_sval2::lib::stream_computed(&mut s.sval, b).is_ok(),
        Obs::Serde => s.ok = b.serialize(Ser(&s.serde)).is_ok(),
        _ => return false,
    }
    true
}

#[derive(Clone)]
enum Target {
    B(Rc<BH>),
    O(Arc<OH>),
}

impl Target {
    fn content(&self) -> &Content {
        match self {
            Target::B(b) => &b.content,
            Target::O(o) => &o.content,
        }
    }
    fn label(&self) -> String {
        match self {
            Target::B(b) => format!("b{}", b.name),
            Target::O(o) => format!("o{}", o.name),
        }
    }
}

fn targets() -> Vec<Target> {
    let mut v: Vec<Target> = BHS.with(|b| b.borrow().iter().cloned().map(Target::B).collect());
    v.extend(lock(&OHS).iter().cloned().map(Target::O));
    v
}

fn view_chain() -> Vec<u32> {
    let n = pick(&[5, 3, 2, 1]);
    (0..n).map(|_| draw(2)).collect()
}

fn observe(cfg: &RunCfg, t: &Target, healthy: bool) {
    count(C::observations);
    let obs = match Obs::pick(&cfg.obs) {
        Obs::Flag(_) if !t.content().styles() => Obs::Display,
        o => o,
    };
    let chain = view_chain();
    let own = draw(4) == 3;
    let whole = draw(2) == 1;
    let verdict = draw(VERDICTS.len() as u32) as usize;
    trace(|| format!("inspect {} with {obs:?} via {chain:?}{}", t.label(), if own { " (owned)" } else { "" }));
    let mut allow = [true; 7];
    match obs {
        Obs::Visit(_) | Obs::Display | Obs::Debug | Obs::Flag(_) | Obs::Sval(_) | Obs::Serde => {}
        Obs::Seq(_) => allow[1] = false,
        _ => {
            allow[1] = false;
            allow[5] = false;
        }
    }
    if healthy {
        allow = [false; 7];
    }
    // now and then the same again and again
    let times = if rt::op_depth() == 0 && draw(100) == 99 { 2 + draw(90) } else { 1 };
    for i in 0..times {
        if i > 0 {
            trace(|| format!("inspect {} once more", t.label()));
        }
        let p = plan(cfg, t.content(), Some(&obs), allow);
        let faulted = one_look(t, &obs, &chain, own, whole, verdict, p, "healthy");
        if faulted && i + 1 == times && !rt::violated() {
            trace(|| format!("inspect {} again, without faults", t.label()));
            one_look(t, &obs, &chain, own, whole, verdict, Plan::none(), "recovery");
        }
        if rt::violated() {
            break;
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn one_look(t: &Target, obs: &Obs, chain: &[u32], own: bool, whole: bool, verdict: usize, p: Plan, kind: &str) -> bool {
    let mut seen = Seen::new(whole, verdict);
    let d = {
        let s = &mut seen;
        exec(obs.class(), p, || match t {
            Target::B(b) => through(&b.bag, chain, obs, s),
            Target::O(o) => {
                if own && look_own(&o.bag, obs, s) {
                    return;
                }
                if own {
                    through(&ValueBag::from(&*o.bag), chain, obs, s)
                } else {
                    through(&o.bag.by_ref(), chain, obs, s)
                }
            }
        })
    };
    let c = t.content();
    let may = c.may_eval();
    count(C::evaluations_checked);
    for (id, _) in &d.op.evals {
        if !may.contains(id) {
            violate("eval.frozen", || format!("inspecting {} evaluated source #{id}, which it must not touch", t.label()));
        }
    }
    if matches!(obs, Obs::Display | Obs::Debug | Obs::Flag(_) | Obs::Sval(_) | Obs::Serde | Obs::Cast(_) | Obs::Seq(_)) {
        for id in &may {
            let n = d.op.evals.iter().filter(|(i, _)| i == id).count();
            if n > may.iter().filter(|i| *i == id).count() {
                violate("eval.twice", || format!("inspecting {} via {chain:?} evaluated source #{id} {n} times", t.label()));
            }
        }
        let elements = c.elements();
        for id in &elements {
            let n = d.op.read.iter().filter(|i| *i == id).count();
            if n > elements.iter().filter(|i| *i == id).count() {
                violate("eval.twice", || format!("inspecting {} via {chain:?} read element #{id} {n} times", t.label()));
            }
        }
    }
    rt::note_str(&seen.text.out);
    rt::note_str(&seen.sval.out);
    rt::note_str(&seen.serde.out.borrow());
    trace(|| {
        let r = match obs {
            Obs::Display | Obs::Debug | Obs::Flag(_) => format!("{:?} ok={}", seen.text.out, seen.ok),
            Obs::Sval(_) => format!("{:?} ok={}", seen.sval.out, seen.ok),
            Obs::Serde => format!("{:?} ok={}", seen.serde.out.borrow(), seen.ok),
            Obs::Visit(_) => format!("{:?} ok={} {:?}", seen.visit.calls, seen.ok, seen.err),
            Obs::Cast(_) => format!("{:?}", seen.cast),
            Obs::Seq(_) => format!("{:?}", seen.seq),
            Obs::Error(_) => format!("{:?}", seen.chain),
            Obs::Down => format!("{}", seen.addr.is_some()),
            Obs::Empty => format!("{}", seen.empty),
        };
        format!("   -> {r}{}", if d.panicked { " (unwound)" } else { "" })
    });
    let faulted = d.faulted();
    if d.panicked && !d.op.panic_fired && !d.oom {
        return true; // already reported
    }
    let judge_with = |first: bool| judge(t, obs, chain, &seen, &d, first, kind);
    if let Err((class, msg)) = judge_with(false) {
        let dup = d.op.evals.iter().any(|(i, g)| d.op.evals.iter().any(|(j, h)| i == j && g != h));
        // an object held more than once may look different, or fail, in one of its places only
        let ids = t.content().may_eval();
        let twice = |i: &u32| ids.iter().filter(|j| *j == i).count() > 1;
        let unclear = d.op.src_fired.iter().any(twice)
            || d.op.evals.iter().any(|(i, g)| twice(i) && d.op.evals.iter().any(|(j, h)| i == j && g != h));
        if unclear {
            rt::count(C::unclear);
        } else if !(dup && judge_with(true).is_ok()) {
            violate(&class, || format!("{} via {chain:?}: {msg}", t.label()));
        }
    }
    if !rt::violated() {
        hold(t, obs, chain, seen);
    }
    faulted
}

// ---------------------------------------------------------------- loans

/// Is this a run that is mostly about what inspections lend out?
pub fn holding() -> bool {
    HOLD.load(Relaxed) > 50
}

/// Keep what an inspection lent out for later.
fn hold(t: &Target, obs: &Obs, chain: &[u32], mut seen: Seen) {
    let percent = HOLD.load(Relaxed);
    if percent == 0 || IN_TEARDOWN.with(|t| t.get()) {
        return;
    }
    // lent for as long as the bag that was looked at, rather than what it borrows from
    let short = matches!(obs, Obs::Down | Obs::Sval(1));
    let lender = || match t {
        _ if short && !chain.is_empty() => None,
        Target::B(b) if short => Some(Lender::Bag(b.clone())),
        Target::O(_) if short => None,
        Target::B(b) => match chain.iter().rposition(|v| *v == 0) {
            None => Some(Lender::Captured(b._keep.clone())),
            Some(0) => Some(Lender::Bag(b.clone())),
            _ => None,
        },
        Target::O(o) => (!chain.contains(&0)).then(|| Lender::Owned(o.clone())),
    };
    let mut what: Vec<Lent> = vec![];
    for s in seen.lent.drain(..).chain(seen.visit.lent.drain(..)).chain(seen.sval.lent.drain(..)).take(4) {
        what.push(Lent::Str(s, s.to_string()));
    }
    if let Some(a) = seen.addr {
        what.push(Lent::Obj(unsafe { &*(a as *const Obj) }, t.content().spec.id));
    }
    let err = seen.lent_err.or(seen.visit.lent_err);
    if what.is_empty() && err.is_none() || lender().is_none() || !chance(percent) {
        return;
    }
    if let Some(e) = err {
        let gens: Vec<(Id, u32)> = t.content().may_eval().iter().map(|i| (*i, gen_of(*i))).collect();
        let d = exec("loan", Plan::none(), || harness(|| crate::sink::chain(e)));
        if let Some(s) = d.r {
            what.push(Lent::Err(e, s, gens));
        }
    }
    for what in what {
        let Some(keep) = lender() else { return };
        if HELD.with(|h| h.borrow().len()) > 12 {
            return;
        }
        let n = name();
        trace(|| format!("   keep the loan l{n}"));
        count(C::loans);
        HELD.with(|h| h.borrow_mut().push(Held { what, _keep: keep, name: n }));
    }
}

fn check_loan(h: &Held) {
    if rt::violated() {
        return;
    }
    trace(|| format!("look at loan l{} again", h.name));
    count(C::loans_checked);
    match &h.what {
        Lent::Str(s, was) => {
            if s.as_bytes() != was.as_bytes() {
                let now = String::from_utf8_lossy(s.as_bytes()).into_owned();
                violate("loan.changed", || format!("a borrowed string was {was:?} and is now {now:?}"));
            }
        }
        Lent::Err(e, was, gens) => {
            let d = exec("loan", Plan::none(), || harness(|| crate::sink::chain(*e)));
            if gens.iter().all(|(i, g)| gen_of(*i) == *g) && d.r.as_ref().is_some_and(|s| s != was) {
                violate("loan.changed", || format!("a borrowed error read {was:?} and now reads {:?}", d.r));
            }
        }
        Lent::Obj(o, id) => {
            let d = exec("loan", Plan::none(), || harness(|| o.check()));
            if d.r.is_some() && o.id != *id {
                violate("loan.changed", || format!("the captured value #{id} is now another one"));
            }
        }
    }
}

/// Look at what is on loan and give some of it back.
fn loans(all: bool) {
    let n = HELD.with(|h| h.borrow().len());
    if n == 0 {
        return;
    }
    let mut back: Vec<Held> = vec![];
    if all {
        back = HELD.with(|h| std::mem::take(&mut *h.borrow_mut()));
    } else if draw(2) == 1 {
        let k = draw(n as u32) as usize;
        back.push(HELD.with(|h| h.borrow_mut().remove(k)));
    } else {
        return;
    }
    for h in back {
        check_loan(&h);
        // others may look again
        if !all && draw(2) == 1 {
            HELD.with(|v| v.borrow_mut().push(h));
        } else {
            drop(h);
        }
    }
}

type Verdict = Result<(), (String, String)>;

fn judge(t: &Target, obs: &Obs, chain: &[u32], seen: &Seen, d: &Done<()>, first: bool, kind: &str) -> Verdict {
    let c = t.content();
    let lk = Lk { c, evals: &d.op.evals, first, failed_at: &[] };
    let cls = obs.class();
    let src = !d.op.src_fired.is_empty() && !d.op.panic_fired;
    let snk = d.op.sink_fired && !d.op.panic_fired;
    // what has no way to report a failure has to be right whenever it returns
    let quiet = matches!(obs, Obs::Cast(_) | Obs::Seq(_) | Obs::Error(_) | Obs::Down | Obs::Empty);
    let cut = d.panicked || (d.oom && !seen.ok && !quiet);
    let fail = |k: &str, m: String| Err((format!("{cls}.{k}"), m));
    let k = if cut {
        "cut"
    } else if snk {
        "sink"
    } else if src {
        "source"
    } else {
        kind
    };
    match obs {
        Obs::Display | Obs::Debug | Obs::Flag(_) | Obs::Sval(_) | Obs::Serde => {
            let mut src = src;
            let mut noted = false;
            let (exp, ok, got) = match obs {
                Obs::Display | Obs::Debug | Obs::Flag(_) => {
                    let e = expected_text(Lk { failed_at: &d.op.failed_at, ..lk }, c, obs);
                    if src && d.op.src_fired.iter().all(|i| c.is_serde(*i)) {
                        // shown as a note in the text instead
                        src = false;
                        noted = true;
                    }
                    (e, true, seen.text.out.clone())
                }
                Obs::Sval(_) => {
                    let mut s = SvalSink::new(false);
                    let r = refm::sval_log(lk, &c.spec, &mut s);
                    (s.out, r.is_ok(), seen.sval.out.clone())
                }
                _ => {
                    let (s, _, r) = refm::serde_log(lk, &c.spec);
                    (s, r.is_ok(), seen.serde.out.borrow().clone())
                }
            };
            if d.op.after_fail > 0 {
                return fail(k, format!("{} call(s) were made on the consumer after it failed", d.op.after_fail));
            }
            if d.op.after_note > 0 && !c.has_serde() {
                return fail(k, "a note was offered to the writer after it failed".into());
            }
            let bad = match obs {
                Obs::Sval(_) => seen.sval.bad.clone(),
                // sval_buffer forgets how long nested sequences are
                Obs::Serde if !c.has_sval() => seen.serde.bad.borrow().clone(),
                _ => None,
            };
            if let Some(m) = bad {
                return fail(k, m);
            }
            if noted && !seen.ok {
                let e = expected_text(lk, c, obs);
                if refm::matches(&exp, &got, true) || refm::matches(&e, &got, true) {
                    return Ok(());
                }
            }
            if src && seen.ok && matches!(obs, Obs::Serde) && d.op.src_fired.iter().all(|i| c.is_sval(*i)) && refm::matches(&exp, &got, false) {
                // the source failed after producing the whole value, which the bridge doesn't look at
                src = false;
            }
            if cut || snk || src || !ok {
                if !cut && seen.ok {
                    let why = if snk { "the consumer failed" } else if src { "the source failed" } else { "the value is marked failed" };
                    return fail(k, format!("{why} but success was reported; delivered {got:?}"));
                }
                if !refm::matches(&exp, &got, true) {
                    return fail(k, format!("delivered {got:?}, not a leading part of {exp:?}"));
                }
            } else {
                if !seen.ok {
                    return fail(k, format!("an error was reported though nothing failed; delivered {got:?}, expected {exp:?}"));
                }
                if !refm::matches(&exp, &got, false) {
                    return fail(k, format!("delivered {got:?}, expected {exp:?}"));
                }
            }
            Ok(())
        }
        Obs::Visit(how) => {
            if src && !cut && seen.ok && d.op.src_fired.iter().any(|i| c.is_outer_fill(*i)) {
                return fail(k, format!("the fill failed but the visit reported success after {:?}", seen.visit.calls));
            }
            if cut || src {
                return Ok(());
            }
            match refm::visit_call(lk, &c.spec, *how == 1) {
                None => {
                    if seen.ok {
                        return fail(k, format!("a value marked failed was visited successfully: {:?}", seen.visit.calls));
                    }
                    if seen.visit.calls.iter().any(|c| !c.starts_with("any:<")) {
                        return fail(k, format!("a value marked failed reached the visitor as {:?}", seen.visit.calls));
                    }
                }
                Some(exp) => {
                    if seen.visit.calls.len() != 1 {
                        return fail(k, format!("the visitor was called {} times ({:?}), expected one call {exp:?}", seen.visit.calls.len(), seen.visit.calls));
                    }
                    if !refm::matches(&exp, &seen.visit.calls[0], false) {
                        return fail(k, format!("the visitor got {:?}, expected {exp:?}", seen.visit.calls[0]));
                    }
                    if *how != 1 && seen.visit.borrowed == 0 && !src && lent_str(t) {
                        return fail(k, format!("the visitor got {:?} but not as a borrowed string", seen.visit.calls[0]));
                    }
                    if *how != 1 && seen.visit.borrowed == 0 && !src && lent_err(t) {
                        return fail(k, format!("the visitor got {:?} but not as a borrowed error", seen.visit.calls[0]));
                    }
                    if snk {
                        if seen.ok {
                            return fail(k, "the visitor's error was lost".into());
                        }
                        let v = VERDICTS[seen.visit.verdict];
                        if seen.err.as_deref() != Some(v) {
                            return fail(k, format!("the visitor's error {v:?} became {:?}", seen.err));
                        }
                    } else if !seen.ok {
                        return fail(k, format!("the visitor succeeded but the visit reported {:?}", seen.err));
                    }
                }
            }
            Ok(())
        }
        Obs::Cast(w) => {
            if cut {
                return Ok(());
            }
            let cl = refm::class(lk, &c.spec);
            let exp = refm::cast_of(&cl, *w);
            let none = refm::cast(None, *w);
            let optional = if refm::base(*w) == 9 {
                src || !lent_str(t)
            } else {
                src || refm::either(&cl, *w)
            };
            if seen.cast == exp || (optional && seen.cast == none) {
                return Ok(());
            }
            fail(k, format!("conversion to {} gave {:?}, expected {exp:?}", refm::CAST_NAMES[*w], seen.cast))
        }
        Obs::Seq(w) => {
            if cut {
                return Ok(());
            }
            let direct = matches!(t, Target::B(b) if b.direct) && chain.is_empty();
            let exp = refm::seq_exp(lk, &c.spec, direct);
            let got = match (&seen.seq, w) {
                // "nothing" and "empty" cannot be told apart here
                (Some(v), 5) if v.is_empty() => None,
                (x, _) => x.clone(),
            };
            match exp {
                SeqExp::Unspecified => {
                    count(C::skipped_unspecified);
                    Ok(())
                }
                SeqExp::No => match got {
                    None => Ok(()),
                    Some(v) => fail(k, format!("something that is not a sequence was extracted as {v:?}")),
                },
                SeqExp::Slots(slots) => {
                    let Some(got) = got else {
                        if src || (*w == 5 && slots.is_empty()) {
                            return Ok(());
                        }
                        return fail(k, format!("a sequence of {} was not extracted", slots.len()));
                    };
                    if got.len() != slots.len() {
                        return fail(k, format!("{} elements gave {} slots: {got:?}", slots.len(), got.len()));
                    }
                    let none = refm::cast(None, *w);
                    for (i, ((cl, must, id), g)) in slots.iter().zip(&got).enumerate() {
                        let e = refm::cast_of(cl, *w);
                        let failed_here = src
                            && match id {
                                None => true,
                                Some(id) => reaches(&c.spec, *id, &d.op.src_fired),
                            };
                        let optional = failed_here || (*w == 9 && !must) || refm::either(cl, *w);
                        if *g != e && !(optional && *g == none) {
                            return fail(k, format!("element {i} as {} gave {g:?}, expected {e:?}", refm::CAST_NAMES[*w]));
                        }
                    }
                    Ok(())
                }
            }
        }
        Obs::Error(_) => {
            if cut || src {
                return Ok(());
            }
            match (refm::class(lk, &c.spec), &seen.chain) {
                (Cl::Err(e), Some(g)) => {
                    if e.len() == g.len() && e.iter().zip(g).all(|(e, g)| refm::matches(e, g, false)) {
                        Ok(())
                    } else {
                        fail(k, format!("the error reads {g:?}, expected {e:?}"))
                    }
                }
                (Cl::Err(e), None) => {
                    // a bag holding the shared error itself cannot lend it out,
                    // and a lazily filled one has nothing to lend
                    let lends = match t {
                        Target::O(_) => true,
                        Target::B(b) => !c.shared || !b.direct,
                    };
                    if lends && matches!(c.spec.body, Body::Err(_)) {
                        fail(k, format!("the error {e:?} cannot be retrieved as an error"))
                    } else {
                        Ok(())
                    }
                }
                (_, Some(g)) => fail(k, format!("something that is not an error was retrieved as {g:?}")),
                (_, None) => Ok(()),
            }
        }
        Obs::Down => {
            if cut {
                return Ok(());
            }
            match seen.addr {
                Some(a) => {
                    if c.is_frozen() {
                        return fail(k, "a buffered copy was downcast to the captured value".into());
                    }
                    let known = {
                        let mut r = reg();
                        let e = &mut r[c.spec.id as usize];
                        if e.addr == 0 {
                            e.addr = a;
                        }
                        e.addr
                    };
                    if known != a {
                        return fail(k, "downcasting gave a different object than before".into());
                    }
                    Ok(())
                }
                None => {
                    let must = !c.is_frozen() && if c.shared { !matches!(c.spec.body, Body::Seq) } else { downcasts(&c.spec) };
                    if must {
                        fail(k, "the captured value cannot be downcast to".into())
                    } else {
                        Ok(())
                    }
                }
            }
        }
        Obs::Empty => {
            if cut {
                return Ok(());
            }
            let exp = match &c.spec.body {
                Body::Prim(Prim::Null) => Some(true),
                Body::FillPrim(_) | Body::Fill if !c.has_failed() => None,
                _ => Some(false),
            };
            match exp {
                Some(e) if e != seen.empty => fail(k, format!("is_empty gave {}, expected {e}", seen.empty)),
                _ => Ok(()),
            }
        }
    }
}

/// Does this bag borrow the string it holds?
fn lent_str(t: &Target) -> bool {
    let c = t.content();
    refm::direct_str(&c.spec) && matches!(t, Target::B(b) if b.direct && !c.shared) && !c.is_frozen()
}

/// Does this bag borrow the error it holds?
fn lent_err(t: &Target) -> bool {
    let c = t.content();
    matches!(c.spec.body, Body::Err(_)) && matches!(t, Target::B(b) if b.direct && !c.shared) && !c.is_frozen()
}

/// Is one of `fired` within the sub-tree of `id`?
fn reaches(s: &Spec, id: Id, fired: &[Id]) -> bool {
    fn find(s: &Spec, id: Id) -> Option<&Spec> {
        if s.id == id {
            return Some(s);
        }
        s.kids.iter().find_map(|k| find(k, id))
    }
    fn any(s: &Spec, fired: &[Id]) -> bool {
        fired.contains(&s.id)
            || s.kids.iter().any(|k| any(k, fired))
            || matches!(&s.body, Body::Bag(c) if any(&c.spec, fired))
    }
    find(s, id).map(|s| any(s, fired)).unwrap_or(true)
}

// ---------------------------------------------------------------- handle operations

fn put_b(b: BH) -> Rc<BH> {
    arrive(&b.counts);
    let b = Rc::new(b);
    BHS.with(|v| v.borrow_mut().push(b.clone()));
    b
}

fn put_o(bag: OwnedValueBag, content: Content) -> Arc<OH> {
    let payloads = content.payloads();
    arrive(&payloads);
    let o = Arc::new(OH { bag: ManuallyDrop::new(bag), content, payloads, name: name() });
    trace(|| format!("   = o{}", o.name));
    lock(&OHS).push(o.clone());
    o
}

fn new_source(cfg: &RunCfg, share: bool) -> (Arc<Spec>, Obj) {
    let mut held: Vec<(Id, Arc<OH>)> = vec![];
    let spec = {
        let held = RefCell::new(&mut held);
        let mut g = cfg.gen;
        if share {
            g.body[0] = 0;
            g.body[7] = 0;
            g.body[8] = 0;
            g.body[9] = 0;
            if g.body.iter().sum::<u32>() == 0 {
                g.body[1] = 1;
            }
        }
        let mut bag = |id: Id| {
            let o = lock(&OHS);
            if o.is_empty() {
                return None;
            }
            let n = o.len() as u32;
            drop(o);
            let k = draw(n) as usize;
            let o = lock(&OHS).get(k).cloned()?;
            // a bag in a bag in a bag ...: keep it shallow
            fn depth(c: &Content) -> u32 {
                fn go(s: &Spec) -> u32 {
                    let own = if let Body::Bag(c) = &s.body { 1 + depth(c) } else { 0 };
                    s.kids.iter().map(|k| go(k)).max().unwrap_or(0).max(own)
                }
                go(&c.spec)
            }
            if depth(&o.content) > 1 {
                return None;
            }
            let c = o.content.clone();
            held.borrow_mut().push((id, o));
            Some(c)
        };
        gen_spec(&g, 3, &mut bag)
    };
    if cfg.live_ids {
        fn ids(s: &Spec, out: &mut Vec<Id>) {
            out.push(s.id);
            s.kids.iter().for_each(|k| ids(k, out));
        }
        ids(&spec, &mut lock(&IDS));
    }
    let obj = tracked(|| Obj::build(&spec, &|id| held.iter().find(|(i, _)| *i == id).map(|(_, o)| o.clone())));
    (spec, obj)
}

fn add_source(cfg: &RunCfg) -> usize {
    let (spec, obj) = new_source(cfg, false);
    let n = name();
    trace(|| format!("new source s{n}: {}", describe(&spec)));
    let obj = tracked(|| Arc::new(obj));
    let mut s = lock(&SRCS);
    s.push(Src { obj, spec, name: n });
    s.len() - 1
}

pub fn describe(s: &Spec) -> String {
    let kids: Vec<String> = s.kids.iter().map(|k| describe(k)).collect();
    let body = match &s.body {
        Body::Bag(c) => format!("Bag({}{})", if c.shared { "shared " } else { "" }, describe(&c.spec)),
        b => format!("{b:?}"),
    };
    format!("#{} {}{}", s.id, body, if kids.is_empty() { String::new() } else { format!(" [{}]", kids.join("; ")) })
}

unsafe fn forever<'a>(b: ValueBag<'a>) -> ValueBag<'static> {
    std::mem::transmute::<ValueBag<'a>, ValueBag<'static>>(b)
}

const OOM_ONLY: [bool; 7] = [true, false, false, false, false, false, true];

fn attempt<R>(
    cfg: &RunCfg,
    what: &str,
    c: &Content,
    allow: [bool; 7],
    healthy: bool,
    mut f: impl FnMut() -> R,
) -> Option<Done<R>> {
    let p = if healthy { plan(cfg, c, None, [false; 7]) } else { plan(cfg, c, None, allow) };
    let d = exec(what, p, &mut f);
    if d.r.is_some() {
        return Some(d);
    }
    if rt::violated() {
        return None;
    }
    trace(|| "   again, without faults".into());
    let d = exec(what, Plan::none(), &mut f);
    if d.r.is_none() {
        return None;
    }
    Some(d)
}

fn op_borrow(cfg: &RunCfg, k: usize, healthy: bool) -> Option<Rc<BH>> {
    let (obj, spec, sn) = {
        let s = lock(&SRCS);
        let s = s.get(k)?;
        (s.obj.clone(), s.spec.clone(), s.name)
    };
    let content = Content::live(spec, false);
    let n = name();
    trace(|| format!("b{n} = capture s{sn}"));
    let o = &*obj as *const Obj;
    let d = attempt(cfg, "capture", &content, OOM_ONLY, healthy, || unsafe { forever(bag_of(&*o)) })?;
    no_evals("capturing", &d.op);
    Some(put_b(BH {
        bag: ManuallyDrop::new(d.r.unwrap()),
        content,
        counts: vec![],
        direct: true,
        _keep: Keep::Src(obj),
        name: n,
    }))
}

fn op_capture_shared(cfg: &RunCfg, healthy: bool) -> Option<Rc<BH>> {
    count(C::shared);
    if draw(6) == 5 {
        return op_capture_plain(cfg, healthy);
    }
    for round in 0..2 {
        let (spec, obj) = new_source(cfg, true);
        if !can_share(&spec.body) {
            return None;
        }
        let id = spec.id;
        {
            let mut r = reg();
            r[id as usize].shared = true;
            r[id as usize].inflight += 1;
        }
        let content = Content::live(spec.clone(), true);
        let n = name();
        trace(|| format!("b{n} = capture shared {}", describe(&spec)));
        let p = if healthy || round > 0 { Plan::none() } else { plan(cfg, &content, None, OOM_ONLY) };
        let d = exec("capture", p, move || shared_bag(obj));
        no_evals("capturing", &d.op);
        match d.r {
            Some(bag) => {
                let b = put_b(BH {
                    bag: ManuallyDrop::new(bag),
                    content,
                    counts: vec![id],
                    direct: true,
                    _keep: Keep::No,
                    name: n,
                });
                settle(&[id]);
                return Some(b);
            }
            None => {
                // the value went with the failed capture
                settle(&[id]);
                if rt::violated() {
                    return None;
                }
            }
        }
    }
    None
}

/// Share plain data, which the library may keep in any way it likes.
fn op_capture_plain(cfg: &RunCfg, healthy: bool) -> Option<Rc<BH>> {
    let kind = if draw(2) == 0 { 0 } else { 7 };
    let spec = gen_kind(&cfg.gen, kind, 0, &mut |_| None);
    let n = name();
    trace(|| format!("b{n} = capture shared data {}", describe(&spec)));
    let content = Content::live(spec.clone(), false);
    let d = attempt(cfg, "capture", &content, OOM_ONLY, healthy, || match &spec.body {
        Body::Prim(p) => shared_prim(p, spec.ctor),
        Body::PrimVec(v) => {
            let pv = harness(|| tracked(|| build_pv(v)));
            Some(shared_vec(pv))
        }
        _ => unreachable!(),
    })?;
    no_evals("capturing", &d.op);
    let bag = d.r.unwrap()?;
    Some(put_b(BH { bag: ManuallyDrop::new(bag), content, counts: vec![], direct: false, _keep: Keep::No, name: n }))
}

/// Clone a handle many times over and let most of the clones go again.
fn op_storm(cfg: &RunCfg, t: &Target, healthy: bool) {
    let n = 2 + draw(if draw(6) == 5 { 300 } else { 40 }) as usize;
    let order = draw(3);
    let deep = draw(2) == 1;
    trace(|| format!("clone {} {n} times", t.label()));
    count(C::clones);
    fn storm<T>(first: impl FnOnce() -> T, again: impl Fn(&T) -> T, n: usize, order: u32, deep: bool) -> T {
        let mut v = Vec::with_capacity(n + 1);
        v.push(first());
        for _ in 0..n {
            let c = again(if deep { v.last().unwrap() } else { &v[0] });
            v.push(c);
        }
        match order {
            0 => {
                let keep = v.pop().unwrap();
                drop(v);
                keep
            }
            1 => {
                v.reverse();
                let keep = v.pop().unwrap();
                drop(v);
                keep
            }
            _ => {
                while v.len() > 1 {
                    let k = v.len() / 2;
                    drop(v.swap_remove(k));
                }
                v.pop().unwrap()
            }
        }
    }
    match t {
        Target::B(b) => {
            let Some(d) = attempt(cfg, "clone", &b.content, OOM_ONLY, healthy, || storm(|| (*b.bag).clone(), |c| c.clone(), n, order, deep)) else {
                return;
            };
            no_evals("cloning", &d.op);
            let nm = name();
            trace(|| format!("   = b{nm}"));
            put_b(BH {
                bag: ManuallyDrop::new(d.r.unwrap()),
                content: b.content.clone(),
                counts: b.counts.clone(),
                direct: b.direct,
                _keep: b._keep.clone(),
                name: nm,
            });
        }
        Target::O(o) => {
            let Some(d) = attempt(cfg, "clone", &o.content, OOM_ONLY, healthy, || {
                storm(|| (*o.bag).clone(), |c| if order == 1 { c.by_ref().to_owned() } else { c.clone() }, n, order, deep)
            }) else {
                return;
            };
            no_evals("cloning", &d.op);
            put_o(d.r.unwrap(), o.content.clone());
        }
    }
}

fn op_clone_b(cfg: &RunCfg, b: &Rc<BH>, healthy: bool) -> Option<Rc<BH>> {
    count(C::clones);
    let n = name();
    trace(|| format!("b{n} = clone b{}", b.name));
    let d = attempt(cfg, "clone", &b.content, OOM_ONLY, healthy, || (*b.bag).clone())?;
    no_evals("cloning", &d.op);
    Some(put_b(BH {
        bag: ManuallyDrop::new(d.r.unwrap()),
        content: b.content.clone(),
        counts: b.counts.clone(),
        direct: b.direct,
        _keep: b._keep.clone(),
        name: n,
    }))
}

fn op_view(cfg: &RunCfg, o: &Arc<OH>, healthy: bool) -> Option<Rc<BH>> {
    let n = name();
    trace(|| format!("b{n} = borrow o{}", o.name));
    let d = attempt(cfg, "borrow", &o.content, OOM_ONLY, healthy, || unsafe { forever(o.bag.by_ref()) })?;
    no_evals("borrowing", &d.op);
    Some(put_b(BH {
        bag: ManuallyDrop::new(d.r.unwrap()),
        content: o.content.clone(),
        counts: vec![],
        direct: false,
        _keep: Keep::Own(o.clone()),
        name: n,
    }))
}

/// What the buffered copy of a bag with content `c` holds, after the
/// evaluations recorded in `op`.
fn freeze(c: &Content, op: &Op) -> Content {
    if c.shared || c.is_frozen() {
        return c.clone();
    }
    fn go(s: &Spec, op: &Op, out: &mut Vec<(Id, St)>) {
        let st = if op.src_fired.contains(&s.id) {
            count(C::failed_marks);
            St::Failed
        } else {
            let g = op.evals.iter().rev().find(|(i, _)| *i == s.id).map(|(_, g)| *g).unwrap_or_else(|| gen_of(s.id));
            St::Frozen(g)
        };
        out.push((s.id, st));
        for k in &s.kids {
            go(k, op, out);
        }
    }
    let mut st = vec![];
    go(&c.spec, op, &mut st);
    Content { spec: c.spec.clone(), shared: false, st: Arc::new(st) }
}

fn buffered(d: Done<OwnedValueBag>, c: &Content, shared: bool) -> Arc<OH> {
    count(C::buffered);
    count(C::evaluations_checked);
    if c.shared || c.is_frozen() {
        no_evals("buffering something already owned", &d.op);
    } else if d.op.src_fired.is_empty() {
        for id in c.evaluated() {
            let n = d.op.evals.iter().filter(|(i, _)| *i == id).count();
            if n != 1 {
                violate("eval.count", || format!("buffering evaluated source #{id} {n} times"));
            }
        }
        for id in c.elements() {
            let n = d.op.read.iter().filter(|i| **i == id).count();
            if n != 1 {
                violate("eval.count", || format!("buffering read sequence element #{id} {n} times"));
            }
        }
        let ids = c.evaluated();
        for (id, _) in &d.op.evals {
            if !ids.contains(id) {
                violate("eval.handle", || format!("buffering evaluated #{id}, which is already owned"));
            }
        }
    } else {
        // where the source fails, that is what it is, for good
        for id in c.evaluated() {
            let n = d.op.evals.iter().filter(|(i, _)| *i == id).count();
            if n > 1 {
                violate("eval.count", || format!("buffering evaluated source #{id} {n} times when something failed"));
            }
        }
    }
    let _ = shared;
    let content = freeze(c, &d.op);
    put_o(d.r.unwrap(), content)
}

fn op_buffer(cfg: &RunCfg, b: &Rc<BH>, healthy: bool) -> Option<Arc<OH>> {
    let chain = view_chain();
    let shared = draw(2) == 1;
    trace(|| format!("buffer b{} via {chain:?}{}", b.name, if shared { " as shared" } else { "" }));
    fn go(b: &ValueBag<'_>, chain: &[u32], shared: bool) -> OwnedValueBag {
        match chain.split_first() {
            None if shared => b.to_shared(),
            None => b.to_owned(),
            Some((0, rest)) => go(&b.by_ref(), rest, shared),
            Some((_, rest)) => {
                let c = b.clone();
                go(&c, rest, shared)
            }
        }
    }
    let allow = [true, false, true, true, true, false, true];
    let c = b.content.clone();
    let p = if healthy { plan(cfg, &c, None, [false; 7]) } else { plan(&RunCfg { faults: cfg.buffer_faults, ..cfg.clone() }, &c, None, allow) };
    let d = exec("buffer", p, || go(&b.bag, &chain, shared));
    if d.panicked && d.op.src_fired.is_empty() && !d.oom {
        return None;
    }
    let faulted = d.faulted();
    let o = if d.r.is_some() { Some(buffered(d, &c, shared)) } else { None };
    if faulted && !rt::violated() {
        trace(|| format!("buffer b{} again, without faults", b.name));
        let d = exec("buffer", Plan::none(), || go(&b.bag, &chain, shared));
        if d.r.is_some() {
            let o2 = buffered(d, &c, shared);
            observe(cfg, &Target::O(o2.clone()), true);
            return Some(o.unwrap_or(o2));
        }
        return o;
    }
    o
}

fn op_clone_o(cfg: &RunCfg, o: &Arc<OH>, how: u32, healthy: bool) -> Option<Arc<OH>> {
    trace(|| format!("{} o{}", ["clone", "re-buffer", "re-buffer as shared", "clone as shared"][how as usize], o.name));
    count(C::clones);
    let d = attempt(cfg, "clone", &o.content, OOM_ONLY, healthy, || match how {
        0 => (*o.bag).clone(),
        1 => o.bag.by_ref().to_owned(),
        2 => o.bag.by_ref().to_shared(),
        _ => (*o.bag).clone().into_shared(),
    })?;
    no_evals("cloning or re-buffering an owned bag", &d.op);
    Some(put_o(d.r.unwrap(), o.content.clone()))
}

/// Move a bag into its shared form.
fn op_into_shared(cfg: &RunCfg, o: Arc<OH>, healthy: bool) -> Option<Arc<OH>> {
    {
        let mut t = lock(&OHS);
        t.retain(|x| !Arc::ptr_eq(x, &o));
    }
    let o = match Arc::try_unwrap(o) {
        Ok(o) => o,
        Err(o) => {
            // someone else still uses it
            lock(&OHS).push(o.clone());
            return op_clone_o(cfg, &o, 3, healthy);
        }
    };
    trace(|| format!("make o{} shared", o.name));
    let mut o = ManuallyDrop::new(o);
    let bag = unsafe { ManuallyDrop::take(&mut o.bag) };
    let content = o.content.clone();
    let payloads = std::mem::take(&mut o.payloads);
    unsafe {
        std::ptr::drop_in_place(&mut o.content);
    }
    depart(&payloads);
    let p = if healthy { Plan::none() } else { plan(cfg, &content, None, OOM_ONLY) };
    let d = exec("clone", p, move || bag.into_shared());
    no_evals("sharing an owned bag", &d.op);
    let r = d.r.map(|b| put_o(b, content));
    settle(&payloads);
    r
}

// ---------------------------------------------------------------- threads

pub const NOPS: usize = 15;

/// The owner of a source that nobody borrows from changes it and lends it again.
fn op_rewrite(cfg: &RunCfg, k: usize, healthy: bool) {
    let obj = Arc::as_ptr(&lock(&SRCS)[k].obj);
    // give up what this thread borrows from it
    loop {
        let b = BHS.with(|v| {
            let mut v = v.borrow_mut();
            let i = v.iter().position(|b| matches!(&b._keep, Keep::Src(o) if Arc::as_ptr(o) == obj))?;
            Some(v.remove(i))
        });
        match b {
            Some(b) => {
                count(C::drops);
                drop(b);
            }
            None => break,
        }
    }
    loop {
        let h = HELD.with(|v| {
            let mut v = v.borrow_mut();
            let i = v.iter().position(|h| matches!(&h._keep, Lender::Captured(Keep::Src(o)) if Arc::as_ptr(o) == obj))?;
            Some(v.remove(i))
        });
        match h {
            Some(h) => {
                check_loan(&h);
                drop(h);
            }
            None => break,
        }
    }
    // other threads may have been at work meanwhile
    let k = {
        let mut g = lock(&SRCS);
        let Some(k) = g.iter().position(|s| Arc::as_ptr(&s.obj) == obj) else { return };
        let how = draw(4);
        let s = &mut g[k];
        let Some(o) = Arc::get_mut(&mut s.obj) else { return };
        tracked(|| o.alter(how));
        s.spec = crate::spec::altered(&s.spec, how);
        count(C::source_rewrite);
        let s = &g[k];
        trace(|| format!("rewrite s{}: {}", s.name, describe(&s.spec)));
        k
    };
    if let Some(b) = op_borrow(cfg, k, healthy) {
        match draw(4) {
            0 => {}
            1 => observe(cfg, &Target::B(b), healthy),
            _ => {
                if let Some(o) = op_buffer(cfg, &b, healthy) {
                    drop(b);
                    if !rt::violated() {
                        observe(cfg, &Target::O(o), healthy);
                    }
                }
            }
        }
    }
}

fn step(cfg: &RunCfg, healthy: bool, nested: bool) {
    count(C::ops);
    rt::yield_point(rt::Y_OP);
    let ts = targets();
    let mut w = cfg.ops;
    let nsrc = lock(&SRCS).len();
    let bhs: Vec<Rc<BH>> = BHS.with(|b| b.borrow().clone());
    let ohs: Vec<Arc<OH>> = lock(&OHS).clone();
    if nsrc == 0 {
        w[1] = 0;
        w[12] = 0;
    }
    if bhs.is_empty() {
        w[4] = 0;
        w[6] = 0;
        w[10] = 0;
    }
    if ohs.is_empty() {
        w[5] = 0;
        w[7] = 0;
        w[8] = 0;
        w[9] = 0;
        w[11] = 0;
    }
    if ts.is_empty() {
        w[0] = 0;
        w[14] = 0;
    }
    if nsrc > 6 {
        w[2] = 0;
    }
    if bhs.len() > 8 {
        w[1] = 0;
        w[3] = 0;
        w[4] = 0;
        w[5] = 0;
        w[14] = 0;
        w[10] += 1;
    }
    if ohs.len() > 10 {
        w[6] = 0;
        w[7] = 0;
        w[8] = 0;
        w[14] = 0;
        w[11] += 1;
    }
    if nested {
        w[2] = 0;
    }
    if w.iter().sum::<u32>() == 0 {
        if nsrc > 0 {
            w[1] = 1;
        } else {
            w[2] = 1;
        }
    }
    drop(ts);
    let k = pick(&w);
    rt::note(0x0900 + k as u64);
    let one = |n: usize| draw(n as u32) as usize;
    // shared state may change only at scheduling points, and between here and
    // the start of the chosen operation there is none
    match k {
        0 => {
            drop((bhs, ohs));
            let ts = targets();
            let t = ts[one(ts.len())].clone();
            drop(ts);
            observe(cfg, &t, healthy);
        }
        1 => {
            drop((bhs, ohs));
            let k = one(nsrc);
            let _ = op_borrow(cfg, k, healthy);
        }
        2 => {
            drop((bhs, ohs));
            let k = add_source(cfg);
            let _ = op_borrow(cfg, k, healthy);
        }
        3 => {
            drop((bhs, ohs));
            if let Some(b) = op_capture_shared(cfg, healthy) {
                if chance(40) && !rt::violated() {
                    observe(cfg, &Target::B(b), healthy);
                }
            }
        }
        4 => {
            let b = bhs[one(bhs.len())].clone();
            drop((bhs, ohs));
            let _ = op_clone_b(cfg, &b, healthy);
        }
        5 => {
            let o = ohs[one(ohs.len())].clone();
            drop((bhs, ohs));
            let _ = op_view(cfg, &o, healthy);
        }
        6 => {
            let b = bhs[one(bhs.len())].clone();
            drop((bhs, ohs));
            if let Some(o) = op_buffer(cfg, &b, healthy) {
                drop(b);
                if chance(60) && !rt::violated() {
                    observe(cfg, &Target::O(o), healthy);
                }
            }
        }
        7 | 8 => {
            let o = ohs[one(ohs.len())].clone();
            drop((bhs, ohs));
            let how = if k == 7 { 0 } else { 1 + draw(3) };
            if let Some(c) = op_clone_o(cfg, &o, how, healthy) {
                drop(o);
                if chance(30) && !rt::violated() {
                    observe(cfg, &Target::O(c), healthy);
                }
            }
        }
        9 => {
            let o = ohs[one(ohs.len())].clone();
            drop((bhs, ohs));
            let _ = op_into_shared(cfg, o, healthy);
        }
        10 => {
            let k = one(bhs.len());
            drop((bhs, ohs));
            count(C::drops);
            let b = BHS.with(|v| v.borrow_mut().remove(k));
            drop(b);
        }
        11 => {
            let o = ohs[one(ohs.len())].clone();
            drop((bhs, ohs));
            count(C::drops);
            lock(&OHS).retain(|x| !Arc::ptr_eq(x, &o));
            drop(o);
        }
        12 => {
            drop((bhs, ohs));
            let k = one(nsrc);
            if chance(50) {
                return op_rewrite(cfg, k, healthy);
            }
            let s = lock(&SRCS).remove(k);
            count(C::source_drop);
            trace(|| format!("forget s{}", s.name));
            drop(s);
        }
        14 => {
            drop((bhs, ohs));
            let ts = targets();
            let t = ts[one(ts.len())].clone();
            drop(ts);
            op_storm(cfg, &t, healthy);
        }
        _ => {
            drop((bhs, ohs));
            let ids = lock(&IDS).clone();
            if !ids.is_empty() {
                let id = ids[one(ids.len())];
                reg()[id as usize].gen += 1;
                count(C::source_mutation);
                trace(|| format!("change source #{id}"));
            }
        }
    }
}

/// How deep operations may be nested in each other's callbacks.
const MAX_DEPTH: usize = 6;

/// An operation started from inside a callback of another one.
pub fn reenter() {
    if rt::op_depth() > MAX_DEPTH || rt::violated() || IN_TEARDOWN.with(|t| t.get()) {
        return;
    }
    let mut cfg = cfg();
    cfg.reenter = if cfg.reenter > 30 { cfg.reenter - 10 } else { cfg.reenter / 2 };
    trace(|| "   re-enters the library:".into());
    // what goes wrong in here is no concern of the operation around it
    step(&cfg, draw(2) == 0, true);
    trace(|| "   and returns".into());
}

pub fn setup() -> (usize, usize, usize) {
    reset();
    lock(&SRCS).clear();
    lock(&OHS).clear();
    lock(&IDS).clear();
    NAMES.store(0, Relaxed);
    let p: &Profile = crate::profile::current();
    let cfg = p.draw();
    *lock(&CFG) = Some(cfg.clone());
    alloc::REUSE.store(cfg.reuse, Relaxed);
    HOLD.store(cfg.hold, Relaxed);
    trace(|| format!("threads={} ops per thread={} preemption gap={}, in the library={}{}", cfg.threads, cfg.nops, cfg.gap, cfg.code_gap, if cfg.reuse { ", memory reused at once" } else { "" }));
    for _ in 0..cfg.nsrc {
        add_source(&cfg);
    }
    // some owned bags to start from
    for _ in 0..cfg.nown {
        let n = lock(&SRCS).len();
        if n == 0 {
            break;
        }
        let k = draw(n as u32) as usize;
        if let Some(b) = op_borrow(&cfg, k, true) {
            let _ = op_buffer(&cfg, &b, true);
        }
    }
    finish_thread();
    (cfg.threads, cfg.gap, cfg.code_gap)
}

fn finish_thread() {
    // bags first: what is on loan does not depend on them
    loop {
        let b = BHS.with(|v| v.borrow_mut().pop());
        match b {
            Some(b) => drop(b),
            None => break,
        }
    }
    loans(true);
}

pub fn body(_tid: usize) {
    let cfg = cfg();
    for _ in 0..cfg.nops {
        if rt::violated() || rt::TICKS.load(Relaxed) > rt::MAX_TICKS {
            break;
        }
        step(&cfg, false, false);
        loans(false);
    }
    finish_thread();
}

pub fn teardown() {
    IN_TEARDOWN.with(|t| t.set(true));
    let cfg = cfg();
    let all: Vec<Arc<OH>> = std::mem::take(&mut *lock(&OHS));
    // sources go first: owned bags must not need them
    let srcs: Vec<Src> = std::mem::take(&mut *lock(&SRCS));
    drop(srcs);
    for o in all {
        if !rt::violated() {
            observe(&cfg, &Target::O(o.clone()), true);
        }
        drop(o);
    }
    if !rt::violated() {
        let r = reg().clone();
        for (i, e) in r.iter().enumerate() {
            if e.built && e.drops != 1 {
                violate("leak", || format!("captured value #{i} was dropped {} times by the end", e.drops));
                break;
            }
        }
    }
    *lock(&CFG) = None;
}

/// After the last thread has ended, and with it what the library keeps per thread.
pub fn afterwards() {
    let (n, bytes) = alloc::live();
    if n > 0 && !rt::violated() {
        violate("leak", || format!("{n} block(s), {bytes} bytes, still allocated after every bag is gone"));
    }
}
