//! What a bag can capture: descriptions of values (`Spec`), the live,
//! instrumented objects built from them (`Obj`), and the walkers that play a
//! description into a formatter, an sval stream or a serde serializer. The
//! same walkers, without instrumentation, serve the reference model.

use crate::alloc::harness;
use crate::rt::{self, chance, draw, pick, F};
use std::cell::Cell;
use std::fmt::{self, Write as _};
use std::sync::{Arc, Mutex, MutexGuard};
use value_bag_sval2::dynamic::Value as DynValue;
use value_bag::{fill, OwnedValueBag, ValueBag};
use value_bag_serde1::lib as serde;
use value_bag_serde1::lib::ser::{
    Error as _, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant,
};
use value_bag_sval2::lib as sval;

pub type Id = u32;

#[derive(Clone, Debug)]
pub enum Chunk {
    Lit(String),
    /// the object's generation at the start of the evaluation
    Gen,
}

#[derive(Clone, Debug, Default)]
pub struct Text(pub Vec<Chunk>);

#[derive(Clone, Debug)]
pub enum Prim {
    Null,
    Bool(bool),
    I8(i8),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    Isize(isize),
    Usize(usize),
    I128(i128),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
}

pub const LABELS: [&str; 8] = ["a", "b", "kind", "Point", "x1", "é", "", "a_name_that_is_longer_than_any_of_the_inline_buffers"];

/// sval shapes
#[derive(Clone, Debug)]
pub enum SN {
    P(Prim),
    Gen,
    Text(Text, bool),
    Bin(Vec<u8>),
    Seq(Vec<SN>),
    Tuple(Vec<SN>),
    Map(Vec<(SN, SN)>),
    Record(Vec<(usize, SN)>),
    Tagged(usize, Box<SN>),
    Tag(usize),
    Some(Box<SN>),
    None,
}

/// serde shapes
#[derive(Clone, Debug)]
pub enum DN {
    P(Prim),
    Gen,
    Text(Text),
    /// text given as something to display
    Collect(Text),
    Unit,
    None,
    Some(Box<DN>),
    Bytes(Vec<u8>),
    UnitStruct(usize),
    UnitVariant(usize, usize),
    NewStruct(usize, Box<DN>),
    NewVariant(usize, usize, Box<DN>),
    Seq(Vec<DN>),
    Tuple(Vec<DN>),
    TupleStruct(usize, Vec<DN>),
    TupleVariant(usize, usize, Vec<DN>),
    Map(Vec<(DN, DN)>),
    Struct(usize, Vec<(usize, DN)>),
    StructVariant(usize, usize, Vec<(usize, DN)>),
}

#[derive(Clone, Debug)]
pub enum Body {
    Prim(Prim),
    Debug(Text),
    Display(Text),
    /// message; the cause is the first child
    Err(Text),
    Sval(SN),
    Serde(DN),
    /// children through `AsRef<[Obj]>`
    Seq,
    /// a typed vector of primitives
    PrimVec(Vec<Prim>),
    /// lazily filled with a copyable primitive
    FillPrim(Prim),
    /// lazily filled with the first child
    Fill,
    /// an owned bag that already exists
    Bag(crate::refm::Content),
}

#[derive(Debug)]
pub struct Spec {
    pub id: Id,
    pub ctor: u32,
    pub body: Body,
    pub kids: Vec<Arc<Spec>>,
}

// ---------------------------------------------------------------- registry

#[derive(Default, Clone, Debug)]
pub struct Rec {
    pub gen: u32,
    pub drops: u32,
    pub built: bool,
    /// handles of the harness that keep this object alive (shared captures)
    pub handles: i64,
    /// operations in progress that may give up or create such a handle
    pub inflight: i64,
    pub shared: bool,
    pub addr: usize,
}

static REG: Mutex<Vec<Rec>> = Mutex::new(Vec::new());

pub fn reg() -> MutexGuard<'static, Vec<Rec>> {
    REG.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn reset() {
    reg().clear();
    PLACES.lock().unwrap_or_else(|e| e.into_inner()).0.clear();
    RECENT.lock().unwrap_or_else(|e| e.into_inner()).clear();
}

pub fn new_id() -> Id {
    let mut r = reg();
    r.push(Rec::default());
    (r.len() - 1) as Id
}

pub fn gen_of(id: Id) -> u32 {
    reg()[id as usize].gen
}

// ---------------------------------------------------------------- objects

const MAGIC: u64 = 0x0B1E_C700_A11F_E001;

/// A typed vector, with a slice of it that can itself be borrowed.
pub struct Pv<T: 'static>(Vec<T>, &'static [T]);

impl<T> Pv<T> {
    fn new(v: Vec<T>) -> Self {
        // the elements stay where they are for as long as the vector does
        let s = unsafe { &*(&v[..] as *const [T]) };
        Pv(v, s)
    }
}

pub enum PV {
    No,
    I8(Pv<i8>),
    U8(Pv<u8>),
    I16(Pv<i16>),
    U16(Pv<u16>),
    I32(Pv<i32>),
    U32(Pv<u32>),
    I64(Pv<i64>),
    U64(Pv<u64>),
    Isize(Pv<isize>),
    Usize(Pv<usize>),
    I128(Pv<i128>),
    U128(Pv<u128>),
    F32(Pv<f32>),
    F64(Pv<f64>),
    Bool(Pv<bool>),
    Char(Pv<char>),
    /// the strings, and references to them
    Str(Pv<String>, Pv<&'static str>),
    Cow(std::borrow::Cow<'static, str>),
    /// an `Option` of a primitive
    Opt(Box<dyn std::any::Any + Send + Sync>),
}

/// Each way of capturing a typed collection of primitives.
macro_rules! capture_pv {
    ($v:expr, $c:expr) => {{
        let (v, c) = ($v, $c);
        match (c % 8, v.1.len()) {
            (0, _) => ValueBag::from(&v.0),
            (1, _) => ValueBag::from(&v.1),
            (2, _) => ValueBag::from_seq_slice(&v.0),
            (3, _) => ValueBag::from(Some(&v.0)),
            (4, _) => ValueBag::from(Some(&v.1)),
            (5, 0) => ValueBag::from(<&[_; 0]>::try_from(v.1).unwrap()),
            (5, 1) => ValueBag::from(<&[_; 1]>::try_from(v.1).unwrap()),
            (5, 2) => ValueBag::from(<&[_; 2]>::try_from(v.1).unwrap()),
            (6, 2) => ValueBag::from(Some(<&[_; 2]>::try_from(v.1).unwrap())),
            (6, 3) => ValueBag::from(Some(<&[_; 3]>::try_from(v.1).unwrap())),
            (_, 3) => ValueBag::from(<&[_; 3]>::try_from(v.1).unwrap()),
            (_, 4) => ValueBag::from(<&[_; 4]>::try_from(v.1).unwrap()),
            _ => ValueBag::from_seq_slice(&v.1),
        }
    }};
}

/// The same for borrowed strings, which have no constructor from a vector.
macro_rules! capture_strs {
    ($v:expr, $c:expr) => {{
        let (v, c) = ($v, $c);
        match (c % 4, v.1.len()) {
            (0, _) => ValueBag::from(&v.1),
            (1, _) => ValueBag::from(Some(&v.1)),
            (2, 1) => ValueBag::from(<&[_; 1]>::try_from(v.1).unwrap()),
            (2, 2) => ValueBag::from(Some(<&[_; 2]>::try_from(v.1).unwrap())),
            (_, 3) => ValueBag::from(<&[_; 3]>::try_from(v.1).unwrap()),
            _ => ValueBag::from_seq_slice(&v.0),
        }
    }};
}

macro_rules! each_pv {
    ($pv:expr, $v:ident => $e:expr, $s:ident, $r:ident => $es:expr) => {
        match $pv {
            PV::No | PV::Cow(_) | PV::Opt(_) => unreachable!(),
            PV::I8($v) => $e,
            PV::U8($v) => $e,
            PV::I16($v) => $e,
            PV::U16($v) => $e,
            PV::I32($v) => $e,
            PV::U32($v) => $e,
            PV::I64($v) => $e,
            PV::U64($v) => $e,
            PV::Isize($v) => $e,
            PV::Usize($v) => $e,
            PV::I128($v) => $e,
            PV::U128($v) => $e,
            PV::F32($v) => $e,
            PV::F64($v) => $e,
            PV::Bool($v) => $e,
            PV::Char($v) => $e,
            PV::Str($s, $r) => $es,
        }
    };
}

pub struct Obj {
    magic: u64,
    pub id: Id,
    pub ctor: u32,
    pub body: Body,
    pub kids: Vec<Obj>,
    pv: PV,
    pub bag: Option<Arc<crate::engine::OH>>,
}

impl Obj {
    pub fn build(s: &Arc<Spec>, bags: &dyn Fn(Id) -> Option<Arc<crate::engine::OH>>) -> Obj {
        let pv = match &s.body {
            Body::PrimVec(v) => build_pv(v),
            Body::Prim(p) => prim_pv(p, s.ctor),
            _ => PV::No,
        };
        let bag = bags(s.id);
        reg()[s.id as usize].built = true;
        Obj {
            magic: MAGIC,
            id: s.id,
            ctor: s.ctor,
            body: s.body.clone(),
            kids: s.kids.iter().map(|k| Obj::build(k, bags)).collect(),
            pv,
            bag,
        }
    }

    pub fn check(&self) {
        if self.magic != MAGIC {
            rt::violate("use-after-drop", || "user code was entered on a value that was already dropped".into());
            rt::throw("dead");
        }
        let r = reg()[self.id as usize].clone();
        if r.drops > 0 {
            rt::violate("use-after-drop", || format!("user code of #{} was entered after it was dropped", self.id));
        }
    }

    /// Start of an evaluation: the generation it shows.
    fn enter(&self) -> Inst {
        harness(|| {
            self.check();
            let g = gen_of(self.id);
            rt::record_eval(self.id, g);
            rt::trace(|| format!("   source #{} evaluated (generation {g})", self.id));
            Inst { id: self.id, gen: g, n: Cell::new(0) }
        })
    }
}

/// What some ways of capturing a primitive borrow from.
fn prim_pv(p: &Prim, c: u32) -> PV {
    macro_rules! opt {
        ($v:expr) => {
            if c % 9 == 8 { PV::Opt(Box::new(Some($v.clone()))) } else { PV::No }
        };
    }
    match p {
        Prim::Null => PV::No,
        Prim::Bool(v) => opt!(v),
        Prim::I8(v) => opt!(v),
        Prim::U8(v) => opt!(v),
        Prim::I16(v) => opt!(v),
        Prim::U16(v) => opt!(v),
        Prim::I32(v) => opt!(v),
        Prim::U32(v) => opt!(v),
        Prim::I64(v) => opt!(v),
        Prim::U64(v) => opt!(v),
        Prim::F32(v) => opt!(v),
        Prim::F64(v) => opt!(v),
        Prim::Char(v) => opt!(v),
        Prim::Isize(_) | Prim::Usize(_) => PV::No,
        Prim::I128(v) => opt!(v),
        Prim::U128(v) => opt!(v),
        Prim::Str(v) => match c % 12 {
            6 | 7 => build_pv(std::slice::from_ref(p)),
            8 => PV::Cow(v.clone().into()),
            9 => PV::Opt(Box::new(Some(v.clone()))),
            _ => PV::No,
        },
    }
}

pub fn build_pv(v: &[Prim]) -> PV {
    macro_rules! all {
        ($pat:path, $out:path) => {
            if v.iter().all(|p| matches!(p, $pat(_))) {
                return $out(Pv::new(v.iter().map(|p| if let $pat(x) = p { *x } else { unreachable!() }).collect()));
            }
        };
    }
    all!(Prim::I8, PV::I8);
    all!(Prim::U8, PV::U8);
    all!(Prim::I16, PV::I16);
    all!(Prim::U16, PV::U16);
    all!(Prim::I32, PV::I32);
    all!(Prim::U32, PV::U32);
    all!(Prim::I64, PV::I64);
    all!(Prim::U64, PV::U64);
    all!(Prim::Isize, PV::Isize);
    all!(Prim::Usize, PV::Usize);
    all!(Prim::I128, PV::I128);
    all!(Prim::U128, PV::U128);
    all!(Prim::F32, PV::F32);
    all!(Prim::F64, PV::F64);
    all!(Prim::Bool, PV::Bool);
    all!(Prim::Char, PV::Char);
    let strs: Vec<String> = v.iter().map(|p| if let Prim::Str(s) = p { s.clone() } else { unreachable!() }).collect();
    let strs = Pv::new(strs);
    let refs = Pv::new(strs.1.iter().map(|s| &**s).collect());
    PV::Str(strs, refs)
}

fn scribble_str(s: &mut String) {
    // same length, different content, still valid text
    unsafe {
        for b in s.as_mut_vec().iter_mut() {
            *b = b'#';
        }
    }
}

impl Drop for Obj {
    fn drop(&mut self) {
        harness(|| {
            if self.magic != MAGIC {
                rt::violate("double-drop", || "a captured value was dropped twice".into());
                // do not touch the remains
                unsafe {
                    std::ptr::write(&mut self.kids, Vec::new());
                    std::ptr::write(&mut self.body, Body::Seq);
                    std::ptr::write(&mut self.pv, PV::No);
                    std::ptr::write(&mut self.bag, None);
                }
                return;
            }
            self.magic = 0xDEAD;
            let r = {
                let mut g = reg();
                let r = &mut g[self.id as usize];
                r.drops += 1;
                r.clone()
            };
            rt::trace(|| format!("   value #{} dropped", self.id));
            if r.drops > 1 {
                rt::violate("double-drop", || format!("captured value #{} was dropped {} times", self.id, r.drops));
            }
            if r.shared && r.handles > 0 {
                rt::violate("early-drop", || {
                    format!("shared value #{} was dropped while {} handle(s) still refer to it", self.id, r.handles)
                });
            }
            match &mut self.body {
                Body::Prim(Prim::Str(s)) => scribble_str(s),
                Body::Prim(Prim::I128(v)) => *v = 0x7777,
                Body::Prim(Prim::U128(v)) => *v = 0x7777,
                _ => {}
            }
            match &mut self.pv {
                PV::Str(v, _) => v.0.iter_mut().for_each(scribble_str),
                PV::I64(v) => v.0.iter_mut().for_each(|x| *x = 0x7777),
                PV::U128(v) => v.0.iter_mut().for_each(|x| *x = 0x7777),
                PV::Cow(v) => scribble_str(v.to_mut()),
                PV::Opt(v) => {
                    if let Some(Some(s)) = v.downcast_mut::<Option<String>>() {
                        scribble_str(s)
                    }
                    if let Some(v) = v.downcast_mut::<Option<i128>>() {
                        *v = Some(0x7777)
                    }
                }
                _ => {}
            }
            // drop children as harness code
            self.kids = Vec::new();
            self.body = Body::Seq;
            self.pv = PV::No;
            if let Some(b) = self.bag.take() {
                crate::engine::release_oh(b);
            }
        })
    }
}

// ---------------------------------------------------------------- rewriting

/// Different content of the same shape and size, in the same place.
trait Alter {
    fn alter(&mut self, how: u32);
}

fn next_char(c: char) -> char {
    match c {
        'z' => 'a',
        'Z' => 'A',
        '9' => '0',
        c if c.is_ascii_alphanumeric() => (c as u8 + 1) as char,
        c => c,
    }
}

impl Alter for String {
    fn alter(&mut self, how: u32) {
        let n = self.bytes().filter(u8::is_ascii_alphanumeric).count();
        let only = [None, Some(0), n.checked_sub(1), Some(n / 2)][how as usize % 4];
        let mut k = 0;
        // ASCII for ASCII: still valid text
        for b in unsafe { self.as_mut_vec().iter_mut() } {
            if b.is_ascii_alphanumeric() {
                if only.map_or(true, |o| o == k) {
                    *b = next_char(*b as char) as u8;
                }
                k += 1;
            }
        }
    }
}

macro_rules! alter_nums {
    ($($t:ty)*) => {$(
        impl Alter for $t {
            fn alter(&mut self, _: u32) {
                *self = self.wrapping_add(1);
            }
        }
    )*};
}
alter_nums!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize i128 u128);

impl Alter for f32 {
    fn alter(&mut self, _: u32) {
        *self += 1.0;
    }
}

impl Alter for f64 {
    fn alter(&mut self, _: u32) {
        *self += 1.0;
    }
}

impl Alter for bool {
    fn alter(&mut self, _: u32) {
        *self = !*self;
    }
}

impl Alter for char {
    fn alter(&mut self, _: u32) {
        *self = next_char(*self);
    }
}

impl<T: Alter> Alter for Vec<T> {
    fn alter(&mut self, how: u32) {
        self.iter_mut().for_each(|v| v.alter(how));
    }
}

impl<A: Alter, B: Alter> Alter for (A, B) {
    fn alter(&mut self, how: u32) {
        self.0.alter(how);
        self.1.alter(how);
    }
}

impl<T: Alter> Alter for Pv<T> {
    fn alter(&mut self, how: u32) {
        self.0.alter(how);
    }
}

impl Alter for Text {
    fn alter(&mut self, how: u32) {
        for c in &mut self.0 {
            if let Chunk::Lit(s) = c {
                s.alter(how);
            }
        }
    }
}

impl Alter for Prim {
    fn alter(&mut self, how: u32) {
        match self {
            Prim::Null => {}
            Prim::Bool(v) => v.alter(how),
            Prim::I8(v) => v.alter(how),
            Prim::U8(v) => v.alter(how),
            Prim::I16(v) => v.alter(how),
            Prim::U16(v) => v.alter(how),
            Prim::I32(v) => v.alter(how),
            Prim::U32(v) => v.alter(how),
            Prim::I64(v) => v.alter(how),
            Prim::U64(v) => v.alter(how),
            Prim::Isize(v) => v.alter(how),
            Prim::Usize(v) => v.alter(how),
            Prim::I128(v) => v.alter(how),
            Prim::U128(v) => v.alter(how),
            Prim::F32(v) => v.alter(how),
            Prim::F64(v) => v.alter(how),
            Prim::Char(v) => v.alter(how),
            Prim::Str(v) => v.alter(how),
        }
    }
}

impl Alter for SN {
    fn alter(&mut self, how: u32) {
        match self {
            SN::P(p) => p.alter(how),
            SN::Text(t, _) => t.alter(how),
            SN::Bin(v) => v.alter(how),
            SN::Seq(v) | SN::Tuple(v) => v.alter(how),
            SN::Map(v) => v.alter(how),
            SN::Record(v) => v.iter_mut().for_each(|(_, v)| v.alter(how)),
            SN::Tagged(_, v) | SN::Some(v) => v.alter(how),
            SN::Gen | SN::Tag(_) | SN::None => {}
        }
    }
}

impl Alter for DN {
    fn alter(&mut self, how: u32) {
        match self {
            DN::P(p) => p.alter(how),
            DN::Text(t) | DN::Collect(t) => t.alter(how),
            DN::Bytes(v) => v.alter(how),
            DN::Some(v) | DN::NewStruct(_, v) | DN::NewVariant(_, _, v) => v.alter(how),
            DN::Seq(v) | DN::Tuple(v) | DN::TupleStruct(_, v) | DN::TupleVariant(_, _, v) => v.alter(how),
            DN::Map(v) => v.alter(how),
            DN::Struct(_, v) | DN::StructVariant(_, _, v) => v.iter_mut().for_each(|(_, v)| v.alter(how)),
            DN::Gen | DN::Unit | DN::None | DN::UnitStruct(_) | DN::UnitVariant(..) => {}
        }
    }
}

impl Alter for Body {
    fn alter(&mut self, how: u32) {
        match self {
            Body::Prim(p) | Body::FillPrim(p) => p.alter(how),
            Body::Debug(t) | Body::Display(t) | Body::Err(t) => t.alter(how),
            Body::Sval(n) => n.alter(how),
            Body::Serde(n) => n.alter(how),
            Body::PrimVec(v) => v.alter(how),
            Body::Seq | Body::Fill | Body::Bag(_) => {}
        }
    }
}

/// The description of a rewritten source.
pub fn altered(s: &Spec, how: u32) -> Arc<Spec> {
    let mut body = s.body.clone();
    body.alter(how);
    Arc::new(Spec { id: s.id, ctor: s.ctor, body, kids: s.kids.iter().map(|k| altered(k, how)).collect() })
}

impl Obj {
    /// Rewrite in place; nothing may borrow from it.
    pub fn alter(&mut self, how: u32) {
        self.body.alter(how);
        self.kids.iter_mut().for_each(|k| k.alter(how));
        match &mut self.pv {
            PV::No => {}
            PV::Cow(c) => c.to_mut().alter(how),
            PV::Opt(o) => {
                macro_rules! each {
                    ($($t:ty)*) => {$(
                        if let Some(Some(v)) = o.downcast_mut::<Option<$t>>() {
                            v.alter(how);
                        }
                    )*};
                }
                each!(bool i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 f32 f64 char String);
            }
            pv => each_pv!(pv, v => v.alter(how), s, _r => s.alter(how)),
        }
    }
}

/// Instrumentation of the walkers.
pub trait Hook {
    fn step(&self) -> Result<(), ()>;
    fn gen(&self) -> u32;
}

pub struct Inst {
    pub id: Id,
    pub gen: u32,
    n: Cell<u32>,
}

impl Hook for Inst {
    fn step(&self) -> Result<(), ()> {
        let n = self.n.get();
        self.n.set(n + 1);
        harness(|| match rt::src_step(self.id, n) {
            F::None => Ok(()),
            F::Err => Err(()),
            F::Panic => rt::throw("source"),
        })
    }
    fn gen(&self) -> u32 {
        self.gen
    }
}

#[derive(Clone, Copy)]
pub struct Quiet(pub u32);

impl Hook for Quiet {
    fn step(&self) -> Result<(), ()> {
        Ok(())
    }
    fn gen(&self) -> u32 {
        self.0
    }
}

/// Without instrumentation, failing at given steps.
pub struct Failing<'a> {
    pub gen: u32,
    pub at: &'a [u32],
    pub n: Cell<u32>,
}

impl<'a> Hook for Failing<'a> {
    fn step(&self) -> Result<(), ()> {
        let n = self.n.get();
        self.n.set(n + 1);
        if self.at.contains(&n) {
            Err(())
        } else {
            Ok(())
        }
    }
    fn gen(&self) -> u32 {
        self.gen
    }
}

struct Digits([u8; 12], usize);

impl fmt::Write for Digits {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0[self.1..self.1 + s.len()].copy_from_slice(s.as_bytes());
        self.1 += s.len();
        Ok(())
    }
}

fn digits(g: u32) -> Digits {
    let mut d = Digits([0; 12], 0);
    let _ = write!(d, "g{g}");
    d
}

impl Digits {
    fn get(&self) -> &str {
        std::str::from_utf8(&self.0[..self.1]).unwrap()
    }
}

pub fn concat(t: &Text, gen: u32) -> String {
    let mut s = String::new();
    for c in &t.0 {
        match c {
            Chunk::Lit(l) => s.push_str(l),
            Chunk::Gen => s.push_str(digits(gen).get()),
        }
    }
    s
}

pub fn walk_fmt<H: Hook>(t: &Text, f: &mut fmt::Formatter, h: &H) -> fmt::Result {
    for c in &t.0 {
        h.step().map_err(|_| fmt::Error)?;
        match c {
            Chunk::Lit(l) => {
                let mut it = l.chars();
                match (it.next(), it.next()) {
                    (Some(c), None) => f.write_char(c)?,
                    _ => f.write_str(l)?,
                }
            }
            Chunk::Gen => f.write_str(digits(h.gen()).get())?,
        }
    }
    h.step().map_err(|_| fmt::Error)
}

fn st<H: Hook>(h: &H) -> sval::Result {
    h.step().map_err(|_| sval::Error::new())
}

fn walk_sval_prim<'s, S: sval::Stream<'s> + ?Sized>(p: &'s Prim, s: &mut S) -> sval::Result {
    match p {
        Prim::Null => s.null(),
        Prim::Bool(v) => s.bool(*v),
        Prim::I8(v) => s.i8(*v),
        Prim::U8(v) => s.u8(*v),
        Prim::I16(v) => s.i16(*v),
        Prim::U16(v) => s.u16(*v),
        Prim::I32(v) => s.i32(*v),
        Prim::U32(v) => s.u32(*v),
        Prim::I64(v) => s.i64(*v),
        Prim::U64(v) => s.u64(*v),
        Prim::Isize(v) => s.i64(*v as i64),
        Prim::Usize(v) => s.u64(*v as u64),
        Prim::I128(v) => s.i128(*v),
        Prim::U128(v) => s.u128(*v),
        Prim::F32(v) => s.f32(*v),
        Prim::F64(v) => s.f64(*v),
        Prim::Char(c) => {
            let mut b = [0; 4];
            s.value_computed(&*c.encode_utf8(&mut b))
        }
        Prim::Str(v) => s.value(&**v),
    }
}

pub fn walk_sval<'s, S: sval::Stream<'s> + ?Sized, H: Hook>(n: &'s SN, s: &mut S, h: &H) -> sval::Result {
    st(h)?;
    match n {
        SN::P(p) => walk_sval_prim(p, s),
        SN::Gen => s.u64(h.gen() as u64),
        SN::Text(t, hint) => {
            let len = if *hint { Some(text_len(t, h.gen())) } else { None };
            s.text_begin(len)?;
            for (i, c) in t.0.iter().enumerate() {
                st(h)?;
                match c {
                    Chunk::Lit(l) if i % 2 == 0 => s.text_fragment(l)?,
                    Chunk::Lit(l) => s.text_fragment_computed(l)?,
                    Chunk::Gen => s.text_fragment_computed(digits(h.gen()).get())?,
                }
            }
            st(h)?;
            s.text_end()
        }
        SN::Bin(b) => {
            s.binary_begin(Some(b.len()))?;
            st(h)?;
            s.binary_fragment(b)?;
            s.binary_end()
        }
        SN::Seq(v) => {
            s.seq_begin(announce(v.len()))?;
            for x in v {
                s.seq_value_begin()?;
                walk_sval(x, s, h)?;
                s.seq_value_end()?;
            }
            st(h)?;
            s.seq_end()
        }
        SN::Tuple(v) => {
            s.tuple_begin(None, None, None, Some(v.len()))?;
            for (i, x) in v.iter().enumerate() {
                s.tuple_value_begin(None, &sval::Index::new(i))?;
                walk_sval(x, s, h)?;
                s.tuple_value_end(None, &sval::Index::new(i))?;
            }
            st(h)?;
            s.tuple_end(None, None, None)
        }
        SN::Map(v) => {
            s.map_begin(announce(v.len()))?;
            for (k, x) in v {
                s.map_key_begin()?;
                walk_sval(k, s, h)?;
                s.map_key_end()?;
                s.map_value_begin()?;
                walk_sval(x, s, h)?;
                s.map_value_end()?;
            }
            st(h)?;
            s.map_end()
        }
        SN::Record(v) => {
            let label = sval::Label::new("R");
            s.record_begin(None, Some(&label), None, Some(v.len()))?;
            for (l, x) in v {
                let l = sval::Label::new(LABELS[*l]);
                s.record_value_begin(None, &l)?;
                walk_sval(x, s, h)?;
                s.record_value_end(None, &l)?;
            }
            st(h)?;
            s.record_end(None, Some(&label), None)
        }
        SN::Tagged(l, x) => {
            let l = sval::Label::new(LABELS[*l]);
            s.tagged_begin(None, Some(&l), None)?;
            walk_sval(x, s, h)?;
            s.tagged_end(None, Some(&l), None)
        }
        SN::Tag(l) => s.tag(None, Some(&sval::Label::new(LABELS[*l])), None),
        SN::Some(x) => {
            let l = sval::Label::new("Some");
            let i = sval::Index::new(1);
            s.enum_begin(None, Some(&sval::Label::new("Option")), None)?;
            s.tagged_begin(Some(&sval::tags::RUST_OPTION_SOME), Some(&l), Some(&i))?;
            walk_sval(x, s, h)?;
            s.tagged_end(Some(&sval::tags::RUST_OPTION_SOME), Some(&l), Some(&i))?;
            s.enum_end(None, Some(&sval::Label::new("Option")), None)
        }
        SN::None => {
            s.enum_begin(None, Some(&sval::Label::new("Option")), None)?;
            s.tag(Some(&sval::tags::RUST_OPTION_NONE), Some(&sval::Label::new("None")), Some(&sval::Index::new(0)))?;
            s.enum_end(None, Some(&sval::Label::new("Option")), None)
        }
    }
}

/// Some sources know how long they are, others don't.
fn announce(n: usize) -> Option<usize> {
    if n % 3 == 2 { None } else { Some(n) }
}

fn text_len(t: &Text, gen: u32) -> usize {
    t.0.iter()
        .map(|c| match c {
            Chunk::Lit(l) => l.len(),
            Chunk::Gen => digits(gen).1,
        })
        .sum()
}

pub struct SRef<'a, H>(pub &'a SN, pub H);

impl<'a, H: Hook> sval::Value for SRef<'a, H> {
    fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        walk_sval(self.0, s, &self.1)
    }
}

struct Pieces<'a>(&'a Text, u32);

impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        walk_fmt(self.0, f, &Quiet(self.1))
    }
}

pub struct DRef<'a, H>(pub &'a DN, pub &'a H);

impl<'a, H: Hook> serde::Serialize for DRef<'a, H> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let h = self.1;
        let st = || h.step().map_err(|_| S::Error::custom("injected"));
        st()?;
        match self.0 {
            DN::P(p) => ser_prim(p, s),
            DN::Gen => s.serialize_u64(h.gen() as u64),
            DN::Text(t) => {
                let x = harness(|| concat(t, h.gen()));
                let r = s.serialize_str(&x);
                harness(|| drop(x));
                r
            }
            DN::Collect(t) => s.collect_str(&Pieces(t, h.gen())),
            DN::Unit => s.serialize_unit(),
            DN::None => s.serialize_none(),
            DN::Some(x) => s.serialize_some(&DRef(x, h)),
            DN::Bytes(b) => s.serialize_bytes(b),
            DN::UnitStruct(n) => s.serialize_unit_struct(LABELS[*n]),
            DN::UnitVariant(n, v) => s.serialize_unit_variant(LABELS[*n], *v as u32, LABELS[*v]),
            DN::NewStruct(n, x) => s.serialize_newtype_struct(LABELS[*n], &DRef(x, h)),
            DN::NewVariant(n, v, x) => s.serialize_newtype_variant(LABELS[*n], *v as u32, LABELS[*v], &DRef(x, h)),
            DN::Seq(v) => {
                let mut c = s.serialize_seq(announce(v.len()))?;
                for x in v {
                    c.serialize_element(&DRef(x, h))?;
                }
                st()?;
                c.end()
            }
            DN::Tuple(v) => {
                let mut c = s.serialize_tuple(v.len())?;
                for x in v {
                    c.serialize_element(&DRef(x, h))?;
                }
                st()?;
                c.end()
            }
            DN::TupleStruct(n, v) => {
                let mut c = s.serialize_tuple_struct(LABELS[*n], v.len())?;
                for x in v {
                    c.serialize_field(&DRef(x, h))?;
                }
                st()?;
                c.end()
            }
            DN::TupleVariant(n, vr, v) => {
                let mut c = s.serialize_tuple_variant(LABELS[*n], *vr as u32, LABELS[*vr], v.len())?;
                for x in v {
                    c.serialize_field(&DRef(x, h))?;
                }
                st()?;
                c.end()
            }
            DN::Map(v) => {
                let mut c = s.serialize_map(announce(v.len()))?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        c.serialize_entry(&DRef(k, h), &DRef(x, h))?;
                    } else {
                        c.serialize_key(&DRef(k, h))?;
                        c.serialize_value(&DRef(x, h))?;
                    }
                }
                st()?;
                c.end()
            }
            DN::Struct(n, v) => {
                let mut c = s.serialize_struct(LABELS[*n], v.len())?;
                for (l, x) in v {
                    c.serialize_field(LABELS[*l], &DRef(x, h))?;
                }
                st()?;
                c.end()
            }
            DN::StructVariant(n, vr, v) => {
                let mut c = s.serialize_struct_variant(LABELS[*n], *vr as u32, LABELS[*vr], v.len())?;
                for (l, x) in v {
                    c.serialize_field(LABELS[*l], &DRef(x, h))?;
                }
                st()?;
                c.end()
            }
        }
    }
}

pub fn ser_prim<S: serde::Serializer>(p: &Prim, s: S) -> Result<S::Ok, S::Error> {
    match p {
        Prim::Null => s.serialize_none(),
        Prim::Bool(v) => s.serialize_bool(*v),
        Prim::I8(v) => s.serialize_i8(*v),
        Prim::U8(v) => s.serialize_u8(*v),
        Prim::I16(v) => s.serialize_i16(*v),
        Prim::U16(v) => s.serialize_u16(*v),
        Prim::I32(v) => s.serialize_i32(*v),
        Prim::U32(v) => s.serialize_u32(*v),
        Prim::I64(v) => s.serialize_i64(*v),
        Prim::U64(v) => s.serialize_u64(*v),
        Prim::Isize(v) => s.serialize_i64(*v as i64),
        Prim::Usize(v) => s.serialize_u64(*v as u64),
        Prim::I128(v) => s.serialize_i128(*v),
        Prim::U128(v) => s.serialize_u128(*v),
        Prim::F32(v) => s.serialize_f32(*v),
        Prim::F64(v) => s.serialize_f64(*v),
        Prim::Char(v) => s.serialize_char(*v),
        Prim::Str(v) => s.serialize_str(v),
    }
}

// ---------------------------------------------------------------- trait impls of Obj

impl fmt::Debug for Obj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let h = self.enter();
        match &self.body {
            Body::Debug(t) => walk_fmt(t, f, &h),
            Body::Err(t) => {
                f.write_str("E(")?;
                walk_fmt(t, f, &h)?;
                f.write_str(")")
            }
            _ => f.write_str("!unexpected Debug!"),
        }
    }
}

impl fmt::Display for Obj {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let h = self.enter();
        match &self.body {
            Body::Display(t) | Body::Err(t) => walk_fmt(t, f, &h),
            _ => f.write_str("!unexpected Display!"),
        }
    }
}

impl std::error::Error for Obj {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        harness(|| {
            self.check();
            rt::src_step_infallible(self.id);
        });
        self.kids.first().map(|k| k as &(dyn std::error::Error + 'static))
    }
}

impl sval::Value for Obj {
    fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        let h = self.enter();
        match &self.body {
            Body::Sval(n) => {
                walk_sval(n, s, &h)?;
                st(&h)
            }
            _ => s.value("!unexpected sval!"),
        }
    }
}

impl serde::Serialize for Obj {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let h = self.enter();
        match &self.body {
            Body::Serde(n) => {
                let r = DRef(n, &h).serialize(s)?;
                h.step().map_err(|_| S::Error::custom("injected"))?;
                Ok(r)
            }
            _ => s.serialize_str("!unexpected serde!"),
        }
    }
}

fn fill_err() -> value_bag::Error {
    value_bag::Error::msg("injected")
}

// a fill is usually a closure

impl<'s, 'f> FnOnce<(fill::Slot<'s, 'f>,)> for Obj {
    type Output = Result<(), value_bag::Error>;
    extern "rust-call" fn call_once(self, a: (fill::Slot<'s, 'f>,)) -> Self::Output {
        self.fill_slot(a.0)
    }
}

impl<'s, 'f> FnMut<(fill::Slot<'s, 'f>,)> for Obj {
    extern "rust-call" fn call_mut(&mut self, a: (fill::Slot<'s, 'f>,)) -> Self::Output {
        self.fill_slot(a.0)
    }
}

impl<'s, 'f> Fn<(fill::Slot<'s, 'f>,)> for Obj {
    extern "rust-call" fn call(&self, a: (fill::Slot<'s, 'f>,)) -> Self::Output {
        self.fill_slot(a.0)
    }
}

impl Obj {
    fn fill_slot(&self, slot: fill::Slot) -> Result<(), value_bag::Error> {
        let h = self.enter();
        h.step().map_err(|_| fill_err())?;
        match &self.body {
            Body::FillPrim(p) => match p {
                Prim::Null => slot.fill_any(()),
                Prim::Bool(v) => slot.fill_any(*v),
                Prim::I8(v) => slot.fill_any(*v),
                Prim::U8(v) => slot.fill_any(*v),
                Prim::I16(v) => slot.fill_any(*v),
                Prim::U16(v) => slot.fill_any(*v),
                Prim::I32(v) => slot.fill_any(*v),
                Prim::U32(v) => slot.fill_any(*v),
                Prim::I64(v) => slot.fill_any(*v),
                Prim::U64(v) if self.ctor % 2 == 0 => slot.fill_any(Some(*v)),
                Prim::U64(v) => slot.fill_any(*v),
                Prim::Isize(v) => slot.fill_any(*v),
                Prim::Usize(v) => slot.fill_any(*v),
                Prim::F32(v) => slot.fill_any(*v),
                Prim::F64(v) => slot.fill_any(*v),
                Prim::Char(v) => slot.fill_any(*v),
                // the slot's lifetime is that of the bag, which this object outlives
                Prim::I128(v) => slot.fill_any(unsafe { extend(v) }),
                Prim::U128(v) => slot.fill_any(unsafe { extend(v) }),
                Prim::Str(v) => slot.fill_any(unsafe { extend(&**v) }),
            }?,
            Body::Fill => {
                let k = &self.kids[0];
                match &k.body {
                    _ if self.ctor % 3 == 2 => slot.fill_any(bag_of(unsafe { extend(k) })),
                    Body::Debug(_) => slot.fill_debug(k),
                    Body::Display(_) => slot.fill_display(k),
                    Body::Err(_) if self.ctor % 2 == 0 => slot.fill_error(unsafe { extend(k) }),
                    Body::Err(_) => slot.fill_dyn_error(k),
                    Body::Sval(_) => slot.fill_sval2(k),
                    Body::Serde(_) => slot.fill_serde1(k),
                    Body::Seq => slot.fill_seq_slice(unsafe { extend(k) }),
                    // anything else as a bag of its own
                    _ => slot.fill_any(bag_of(unsafe { extend(k) })),
                }?
            }
            _ => slot.fill_any("!unexpected fill!")?,
        }
        h.step().map_err(|_| fill_err())
    }
}

unsafe fn extend<T: ?Sized>(v: &T) -> &'static T {
    &*(v as *const T)
}

impl AsRef<[Obj]> for Obj {
    fn as_ref(&self) -> &[Obj] {
        harness(|| {
            self.check();
            rt::src_step_infallible(self.id);
        });
        &self.kids
    }
}

impl<'v> From<&'v Obj> for ValueBag<'v> {
    fn from(o: &'v Obj) -> ValueBag<'v> {
        harness(|| {
            o.check();
            rt::record_read(o.id);
            rt::src_step_infallible(o.id);
        });
        bag_of(o)
    }
}

/// Each way of capturing a copyable primitive.
macro_rules! prim_bag {
    ($o:expr, $v:expr, $c:expr) => {{
        let v = $v;
        match $c % 9 {
            8 => opt_bag($o, Some(v)),
            0 | 1 => ValueBag::from(*v),
            2 => ValueBag::from(v),
            3 => ValueBag::from(Some(*v)),
            4 => ValueBag::capture_debug(v),
            5 => ValueBag::capture_display(v),
            6 => ValueBag::capture_sval2(v),
            _ => ValueBag::capture_serde1(v),
        }
    }};
}

fn opt_bag<'v, T: fmt::Debug + 'static>(o: &'v Obj, _: Option<&T>) -> ValueBag<'v> {
    match &o.pv {
        PV::Opt(v) => ValueBag::capture_debug(v.downcast_ref::<Option<T>>().unwrap()),
        _ => unreachable!(),
    }
}

/// References that bags were made from by reference, kept for the run.
struct Places(Vec<Box<dyn std::any::Any>>);
unsafe impl Send for Places {}
static PLACES: std::sync::Mutex<Places> = std::sync::Mutex::new(Places(Vec::new()));

fn place<'v, T: Copy + 'static>(v: T) -> &'v T {
    harness(|| {
        let b = Box::new(v);
        let r = unsafe { &*(&*b as *const T) };
        PLACES.lock().unwrap_or_else(|e| e.into_inner()).0.push(b);
        r
    })
}

pub fn bag_of(o: &Obj) -> ValueBag<'_> {
    let c = o.ctor;
    match &o.body {
        Body::Prim(p) => match p {
            Prim::Null => match c % 7 {
                4 => ValueBag::from(&()),
                5 => ValueBag::capture_sval2(&None::<String>),
                6 => ValueBag::capture_serde1(&None::<&'static str>),
                0 => ValueBag::empty(),
                1 => ValueBag::from(None::<i64>),
                2 => ValueBag::from(()),
                _ => ValueBag::capture_debug(&None::<u16>),
            },
            Prim::Bool(v) => prim_bag!(o, v, c),
            Prim::I8(v) => prim_bag!(o, v, c),
            Prim::U8(v) => prim_bag!(o, v, c),
            Prim::I16(v) => prim_bag!(o, v, c),
            Prim::U16(v) => prim_bag!(o, v, c),
            Prim::I32(v) => prim_bag!(o, v, c),
            Prim::U32(v) => prim_bag!(o, v, c),
            Prim::I64(v) => prim_bag!(o, v, c),
            Prim::U64(v) => prim_bag!(o, v, c),
            Prim::Isize(v) => if c % 2 == 0 { ValueBag::from(*v) } else { ValueBag::capture_display(v) },
            Prim::Usize(v) => if c % 2 == 0 { ValueBag::from(v) } else { ValueBag::capture_debug(v) },
            Prim::F32(v) => prim_bag!(o, v, c),
            Prim::F64(v) => prim_bag!(o, v, c),
            Prim::Char(v) => prim_bag!(o, v, c),
            Prim::I128(v) => match c % 9 {
                0 | 1 => ValueBag::from(v),
                2 => ValueBag::capture_display(v),
                4 | 5 => ValueBag::capture_sval2(v),
                8 => opt_bag(o, Some(v)),
                _ => ValueBag::from_i128_ref(v),
            },
            Prim::U128(v) => match c % 9 {
                0 | 1 => ValueBag::from(v),
                2 => ValueBag::capture_debug(v),
                4 | 5 => ValueBag::capture_serde1(v),
                8 => opt_bag(o, Some(v)),
                _ => ValueBag::from_u128_ref(v),
            },
            Prim::Str(v) => match c % 12 {
                6 | 7 => match &o.pv {
                    PV::Str(_, r) if c % 12 == 6 => ValueBag::from(&r.0[0]),
                    PV::Str(_, r) => ValueBag::capture_display(&r.0[0]),
                    _ => unreachable!(),
                },
                8 => match &o.pv {
                    PV::Cow(v) => ValueBag::from(v),
                    _ => unreachable!(),
                },
                9 => opt_bag(o, Some(v)),
                10 => ValueBag::capture_sval2(v),
                0 => ValueBag::from(&**v),
                1 => ValueBag::capture_display(v),
                2 => ValueBag::from(v),
                3 => ValueBag::capture_debug(v),
                4 => ValueBag::from(Some(&**v)),
                _ => ValueBag::capture_serde1(v),
            },
        },
        Body::Debug(_) => match c % 6 {
            5 => ValueBag::from(place::<&'static dyn fmt::Debug>(unsafe { &*(o as *const Obj) })),
            4 => ValueBag::from(Some(o as &dyn fmt::Debug)),
            0 => ValueBag::from_debug(o),
            1 => ValueBag::capture_debug(o),
            2 => ValueBag::from_dyn_debug(o),
            _ => ValueBag::from(o as &dyn fmt::Debug),
        },
        Body::Display(_) => match c % 6 {
            5 => ValueBag::from(place::<&'static dyn fmt::Display>(unsafe { &*(o as *const Obj) })),
            4 => ValueBag::from(Some(o as &dyn fmt::Display)),
            0 => ValueBag::from_display(o),
            1 => ValueBag::capture_display(o),
            2 => ValueBag::from_dyn_display(o),
            _ => ValueBag::from(o as &dyn fmt::Display),
        },
        Body::Err(_) => match c % 5 {
            4 => ValueBag::from(place::<&'static (dyn std::error::Error + 'static)>(unsafe { &*(o as *const Obj) })),
            3 => ValueBag::from(Some(o as &(dyn std::error::Error + 'static))),
            0 => ValueBag::capture_error(o),
            1 => ValueBag::from_dyn_error(o),
            _ => ValueBag::from(o as &(dyn std::error::Error + 'static)),
        },
        Body::Sval(_) => match c % 6 {
            3 => ValueBag::from(o as &dyn DynValue),
            4 => ValueBag::from(Some(o as &dyn DynValue)),
            5 => ValueBag::from(place::<&'static dyn DynValue>(unsafe { &*(o as *const Obj) })),
            0 => ValueBag::from_sval2(o),
            1 => ValueBag::capture_sval2(o),
            _ => ValueBag::from_dyn_sval2(o),
        },
        Body::Serde(_) => match c % 2 {
            0 => ValueBag::from_serde1(o),
            _ => ValueBag::capture_serde1(o),
        },
        Body::Seq => ValueBag::from_seq_slice(o),
        Body::PrimVec(_) => each_pv!(&o.pv, v => capture_pv!(v, c), v, r => {
            match c % 4 {
                0 => ValueBag::from(&v.0),
                2 => ValueBag::from(Some(&v.0)),
                _ => capture_strs!(r, c / 2),
            }
        }),
        Body::FillPrim(_) | Body::Fill => ValueBag::from_fill(o),
        Body::Bag(_) => {
            let b: &OwnedValueBag = &o.bag.as_ref().unwrap().bag;
            if c % 2 == 0 { b.by_ref() } else { ValueBag::from(b) }
        }
    }
}

/// Can the borrowing bag of this object be downcast back to it?
pub fn downcasts(s: &Spec) -> bool {
    match &s.body {
        Body::Debug(_) | Body::Display(_) => s.ctor % 6 == 1,
        Body::Err(_) => s.ctor % 5 == 0,
        Body::Sval(_) => s.ctor % 6 == 1,
        Body::Serde(_) => s.ctor % 2 == 1,
        _ => false,
    }
}

pub fn shared_bag(o: Obj) -> ValueBag<'static> {
    match &o.body {
        Body::Debug(_) => ValueBag::capture_shared_debug(o),
        Body::Display(_) => ValueBag::capture_shared_display(o),
        Body::Err(_) => ValueBag::capture_shared_error(o),
        Body::Sval(_) => ValueBag::capture_shared_sval2(o),
        Body::Serde(_) => ValueBag::capture_shared_serde1(o),
        Body::Seq => ValueBag::capture_shared_seq_slice(o),
        _ => unreachable!(),
    }
}

/// Each way of capturing plain data as shared.
macro_rules! shared_plain {
    ($v:expr, $c:expr) => {{
        let v = $v;
        match $c % 6 {
            0 => ValueBag::capture_shared_debug(v),
            1 => ValueBag::capture_shared_display(v),
            2 => ValueBag::capture_shared_sval2(v),
            3 => ValueBag::capture_shared_serde1(v),
            4 => ValueBag::capture_shared_debug(Some(v)),
            _ => ValueBag::capture_shared_serde1(Some(v)),
        }
    }};
}

/// A shared capture of plain data, which needs no object to come from.
pub fn shared_prim(p: &Prim, c: u32) -> Option<ValueBag<'static>> {
    Some(match p {
        Prim::Null => if c % 2 == 0 { ValueBag::capture_shared_debug(None::<i32>) } else { ValueBag::capture_shared_sval2(None::<bool>) },
        Prim::Bool(v) => shared_plain!(*v, c),
        Prim::I8(v) => shared_plain!(*v, c),
        Prim::U8(v) => shared_plain!(*v, c),
        Prim::I16(v) => shared_plain!(*v, c),
        Prim::U16(v) => shared_plain!(*v, c),
        Prim::I32(v) => shared_plain!(*v, c),
        Prim::U32(v) => shared_plain!(*v, c),
        Prim::I64(v) => shared_plain!(*v, c),
        Prim::U64(v) => shared_plain!(*v, c),
        Prim::Isize(v) => if c % 2 == 0 { ValueBag::capture_shared_debug(*v) } else { ValueBag::capture_shared_display(*v) },
        Prim::Usize(v) => if c % 2 == 0 { ValueBag::capture_shared_serde1(*v) } else { ValueBag::capture_shared_debug(Some(*v)) },
        Prim::F32(v) => shared_plain!(*v, c),
        Prim::F64(v) => shared_plain!(*v, c),
        Prim::Char(v) => shared_plain!(*v, c),
        Prim::I128(_) | Prim::U128(_) | Prim::Str(_) => return None,
    })
}

/// A vector to be captured as shared: made by the harness, owned by the bag.
pub fn shared_vec(pv: PV) -> ValueBag<'static> {
    each_pv!(pv, v => ValueBag::capture_shared_seq_slice(v.0), v, r => {
        harness(|| drop(r));
        ValueBag::capture_shared_seq_slice(v.0)
    })
}

pub fn can_share(b: &Body) -> bool {
    matches!(b, Body::Debug(_) | Body::Display(_) | Body::Err(_) | Body::Sval(_) | Body::Serde(_) | Body::Seq)
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct GenCfg {
    /// weights: Prim, Display, Debug, Err, Sval, Serde, Seq, PrimVec, FillPrim, Fill
    pub body: [u32; 10],
    /// how often generations appear in content (percent)
    pub live: u32,
    /// how often text aims at the inline-buffer limits (percent)
    pub edge_text: u32,
    pub depth: u32,
}

const ALPHA: [&str; 22] = [
    "a", "b", "z", "0", " ", "é", "漢", "😀", "\"", "\\", "\n", "'", "\0", "\t", "\r", "{", "}", "[", ",", "\u{feff}", "\u{301}", "\u{10ffff}",
];
const LENS: [usize; 29] = [
    0, 1, 2, 20, 21, 22, 23, 24, 44, 45, 46, 47, 48, 62, 63, 64, 65, 66, 70, 110, 128, 129, 200, 254, 255, 256, 257, 300, 520,
];
const LARGE: [usize; 8] = [511, 513, 1000, 1023, 1024, 1025, 2049, 4097];
const HUGE: [usize; 8] = [8191, 8192, 8193, 16385, 32769, 65535, 65536, 65537];
/// Texts that look like something else.
const WORDS: [&str; 24] = [
    "true", "false", "null", "None", "NaN", "inf", "-1", "0", "1", "42", "1e5", "0.5", "<failed>", "<>", "()", "[]", "{}", "{:?}", "[1, 2]", "\"a\"", "Some(1)", "error",
    "18446744073709551615", "a",
];

/// Texts of this run, to make others from that are nearly the same.
static RECENT: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn gen_string(edge: u32) -> String {
    let recent = RECENT.lock().unwrap_or_else(|e| e.into_inner()).len() as u32;
    if recent > 0 && draw(12) == 11 {
        let k = draw(recent) as usize;
        let mut s = RECENT.lock().unwrap_or_else(|e| e.into_inner())[k].clone();
        match draw(5) {
            0 => {}
            1 => s.push('~'),
            2 => {
                s.pop();
            }
            3 => {
                // one character replaced by another of the same size
                let at = s.char_indices().filter(|(_, c)| c.is_ascii()).nth(draw(s.len().max(1) as u32) as usize).map(|x| x.0);
                if let Some(at) = at {
                    s.replace_range(at..at + 1, "~");
                }
            }
            _ => {
                if s.ends_with(|c: char| c.is_ascii()) {
                    s.pop();
                    s.push('~');
                }
            }
        }
        return s;
    }
    let s = gen_fresh(edge);
    let mut r = RECENT.lock().unwrap_or_else(|e| e.into_inner());
    if s.len() > 4 && r.len() < 8 {
        r.push(s.clone());
    }
    s
}

fn gen_fresh(edge: u32) -> String {
    if draw(20) == 19 {
        return WORDS[draw(WORDS.len() as u32) as usize].to_string();
    }
    let target = if chance(edge) {
        match draw(16) {
            15 => draw(130) as usize,
            14 if draw(8) == 7 => {
                if draw(16) == 15 {
                    HUGE[draw(HUGE.len() as u32) as usize]
                } else {
                    LARGE[draw(LARGE.len() as u32) as usize]
                }
            }
            _ => LENS[draw(LENS.len() as u32) as usize],
        }
    } else {
        draw(6) as usize
    };
    let style = draw(3);
    let mut s = String::new();
    while s.len() < target {
        if s.len() >= 600 {
            // no choices left to make in a text this long
            s.push_str(if s.len() % 2 == 0 { "b" } else { "c" });
            continue;
        }
        let left = target - s.len();
        let c = match style {
            0 => "a",
            1 => ALPHA[draw(5) as usize],
            _ => ALPHA[draw(ALPHA.len() as u32) as usize],
        };
        s.push_str(if c.len() <= left { c } else { "a" });
    }
    s
}

pub fn gen_text(cfg: &GenCfg) -> Text {
    let s = gen_string(cfg.edge_text);
    let live = chance(cfg.live);
    let mut cuts = [0, 1, 2, 3, 4, 5, 6, 12][pick(&[6, 6, 4, 4, 2, 2, 2, 1])];
    if cuts == 12 && draw(4) == 3 {
        cuts = 20 + draw(60);
    }
    let mut bounds: Vec<usize> = (0..cuts)
        .map(|_| {
            let mut p = draw(s.len() as u32 + 1) as usize;
            while !s.is_char_boundary(p) {
                p -= 1;
            }
            p
        })
        .collect();
    bounds.sort();
    bounds.push(s.len());
    let mut out = Vec::new();
    let mut at = 0;
    for b in bounds {
        out.push(Chunk::Lit(s[at..b].to_string()));
        at = b;
    }
    if s.is_empty() && out.len() == 1 && chance(50) {
        out.clear();
    }
    if live {
        let p = draw(out.len() as u32 + 1) as usize;
        out.insert(p, Chunk::Gen);
    }
    Text(out)
}

/// A number next to a power of two.
fn gen_edge() -> i128 {
    if draw(8) == 7 {
        // anything of some size
        let mut v = 0i128;
        for _ in 0..1 + draw(4) {
            v = v << 32 | (draw(65536) as i128) << 16 | draw(65536) as i128;
        }
        return v;
    }
    let m = (1i128 << draw(127)) + draw(5) as i128 - 2;
    if draw(2) == 1 { -m } else { m }
}

fn gen_int(k: u32) -> Prim {
    let e = gen_edge();
    match k {
        0 => Prim::I8(e as i8),
        1 => Prim::U8(e as u8),
        2 => Prim::I16(e as i16),
        3 => Prim::U16(e as u16),
        4 => Prim::I32(e as i32),
        5 => Prim::U32(e as u32),
        6 => Prim::I64(e as i64),
        7 => Prim::U64(e as u64),
        8 => Prim::Isize(e as isize),
        9 => Prim::Usize(e as usize),
        10 => Prim::I128(if draw(8) == 7 { i128::MIN } else { e }),
        _ => Prim::U128(match draw(8) {
            7 => u128::MAX,
            6 => (e as u128) | (1 << 127),
            _ => e as u128,
        }),
    }
}

fn gen_float() -> f64 {
    if draw(4) == 3 {
        let mut v = 0u64;
        for _ in 0..4 {
            v = v << 16 | draw(65536) as u64;
        }
        return f64::from_bits(v);
    }
    [
        0.0, 1.5, -2.25, 1e300, f64::INFINITY, 3.0, -0.0, f64::NAN, 1e-7, 1e16, 123456.789, f64::MIN_POSITIVE, f64::NEG_INFINITY,
        5e-324, -1e-310, f64::MAX, f64::MIN, f64::EPSILON, 0.1, 9007199254740992.0, -9007199254740994.0, 18446744073709551616.0, -9223372036854775808.0, 4294967296.0, 1.0, -1.0,
    ][draw(26) as usize]
}

fn gen_f32() -> f32 {
    // exact in both widths, so they read the same
    [0.0, 1.5, -2.25, 1024.0, f32::INFINITY, -0.0, f32::NAN, 0.5][draw(8) as usize]
}

pub fn gen_char() -> char {
    if draw(4) == 3 {
        // not the ones the simulator uses itself
        return char::from_u32(draw(0x110000)).filter(|c| *c > '\u{8}' && !('\u{E000}'..='\u{F8FF}').contains(c)).unwrap_or('~');
    }
    ['a', 'é', '漢', '\'', '\n', '\0', '😀', '\u{7f}'][draw(8) as usize]
}

pub fn gen_prim(edge: u32) -> Prim {
    if crate::engine::holding() && draw(2) == 1 {
        return Prim::Str(gen_string(edge));
    }
    match pick(&[4, 1, 1, 10, 2, 1, 2, 4]) {
        0 => Prim::I64(draw(100) as i64),
        1 => Prim::Null,
        2 => Prim::Bool(draw(2) == 1),
        3 => gen_int(draw(12)),
        4 => Prim::F64(gen_float()),
        5 => Prim::F32(gen_f32()),
        6 => Prim::Char(gen_char()),
        _ => Prim::Str(gen_string(edge)),
    }
}

fn gen_n(max: u32) -> u32 {
    // lengths: mostly short
    let n = pick(&[2, 4, 4, 3, 2, 1, 1]) as u32;
    n.min(max)
}

/// Now and then a long list of simple things.
fn gen_long() -> Option<u32> {
    if draw(40) == 39 {
        Some(match draw(8) {
            7 => 50 + draw(230),
            6 => [8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257][draw(13) as usize],
            _ => 7 + draw(40),
        })
    } else {
        None
    }
}

fn gen_bytes() -> Vec<u8> {
    let n = if draw(8) == 7 { draw(80) } else { gen_n(4) };
    (0..n).map(|_| draw(256) as u8).collect()
}

/// How many entries a map or structure has.
fn gen_entries() -> u32 {
    if draw(40) == 39 { 4 + draw(20) } else { gen_n(3) }
}

/// How deep the deeply nested are.
fn nesting() -> u32 {
    if draw(10) == 9 { 12 + draw(if draw(4) == 3 { 90 } else { 40 }) } else { 3 + draw(9) }
}

/// A list in which an element may be the same as the one before.
fn gen_list<T: Clone>(n: u32, mut f: impl FnMut() -> T) -> Vec<T> {
    let mut v: Vec<T> = Vec::new();
    for i in 0..n {
        if i > 0 && draw(16) == 15 {
            v.push(v[v.len() - 1].clone());
        } else {
            v.push(f());
        }
    }
    v
}

fn label() -> usize {
    draw(LABELS.len() as u32) as usize
}

pub fn gen_sn(cfg: &GenCfg, depth: u32) -> SN {
    let d = if depth == 0 { 0 } else { 1 };
    if d == 1 && draw(60) == 59 {
        let mut n = gen_sn(cfg, 0);
        for _ in 0..nesting() {
            n = match draw(4) {
                0 => SN::Some(Box::new(n)),
                1 => SN::Map(vec![(SN::P(Prim::Bool(true)), n)]),
                _ => SN::Seq(vec![n]),
            };
        }
        return n;
    }
    match pick(&[5, 4, 1 + cfg.live / 20, d, 4 * d, 2 * d, 2 * d, 2 * d, d, d, d, d]) {
        0 => SN::P(gen_prim(cfg.edge_text)),
        1 => SN::Text(gen_text(cfg), draw(2) == 1),
        2 => {
            if cfg.live > 0 { SN::Gen } else { SN::P(Prim::Null) }
        }
        3 => SN::Bin(gen_bytes()),
        4 => SN::Seq(match gen_long() {
            Some(n) => gen_list(n, || gen_sn(cfg, 0)),
            None => gen_list(gen_n(5), || gen_sn(cfg, depth - 1)),
        }),
        5 => SN::Tuple(gen_list(gen_n(4), || gen_sn(cfg, depth - 1))),
        6 => SN::Map(gen_list(gen_entries(), || (gen_sn(cfg, 0), gen_sn(cfg, depth - 1)))),
        7 => SN::Record(gen_list(gen_entries(), || (label(), gen_sn(cfg, depth - 1)))),
        8 => SN::Tagged(label(), Box::new(gen_sn(cfg, depth - 1))),
        9 => SN::Tag(label()),
        10 => SN::Some(Box::new(gen_sn(cfg, depth - 1))),
        _ => SN::None,
    }
}

pub fn gen_dn(cfg: &GenCfg, depth: u32) -> DN {
    let d = if depth == 0 { 0 } else { 1 };
    if d == 1 && draw(60) == 59 {
        let mut n = gen_dn(cfg, 0);
        for _ in 0..nesting() {
            n = match draw(4) {
                0 => DN::Some(Box::new(n)),
                1 => DN::Struct(label(), vec![(label(), n)]),
                _ => DN::Seq(vec![n]),
            };
        }
        return n;
    }
    let sub = |n: u32| -> Vec<DN> { gen_list(gen_n(n), || gen_dn(cfg, depth - 1)) };
    let fields = || -> Vec<(usize, DN)> { gen_list(gen_entries(), || (label(), gen_dn(cfg, depth - 1))) };
    match pick(&[5, 4, 1 + cfg.live / 20, 1, 1, d, d, d, d, d, d, 4 * d, 2 * d, d, d, 2 * d, 2 * d, d]) {
        0 => DN::P(gen_prim(cfg.edge_text)),
        1 => if draw(4) == 3 { DN::Collect(gen_text(cfg)) } else { DN::Text(gen_text(cfg)) },
        2 => {
            if cfg.live > 0 { DN::Gen } else { DN::P(Prim::Null) }
        }
        3 => DN::Unit,
        4 => DN::None,
        5 => DN::Some(Box::new(gen_dn(cfg, depth - 1))),
        6 => DN::Bytes(gen_bytes()),
        7 => DN::UnitStruct(label()),
        8 => DN::UnitVariant(label(), label()),
        9 => DN::NewStruct(label(), Box::new(gen_dn(cfg, depth - 1))),
        10 => DN::NewVariant(label(), label(), Box::new(gen_dn(cfg, depth - 1))),
        11 => DN::Seq(match gen_long() {
            Some(n) => gen_list(n, || gen_dn(cfg, 0)),
            None => sub(5),
        }),
        12 => DN::Tuple(sub(4)),
        13 => DN::TupleStruct(label(), sub(3)),
        14 => DN::TupleVariant(label(), label(), sub(3)),
        15 => DN::Map(gen_list(gen_entries(), || (gen_dn(cfg, 0), gen_dn(cfg, depth - 1)))),
        16 => DN::Struct(label(), fields()),
        _ => DN::StructVariant(label(), label(), fields()),
    }
}

fn gen_err(cfg: &GenCfg, depth: u32) -> Arc<Spec> {
    let id = new_id();
    let ctor = draw(24);
    let body = Body::Err(gen_text(cfg));
    let kids = if depth > 3 || depth > 0 && chance(50) { vec![gen_err(cfg, depth - 1)] } else { vec![] };
    Arc::new(Spec { id, ctor, body, kids })
}

/// `bag` may supply an existing owned bag to use as a sequence element.
pub fn gen_spec(cfg: &GenCfg, depth: u32, bag: &mut dyn FnMut(Id) -> Option<crate::refm::Content>) -> Arc<Spec> {
    let mut wt = cfg.body;
    if depth == 0 {
        wt[6] = 0;
        if wt.iter().sum::<u32>() == 0 {
            wt[0] = 1;
        }
    }
    let kind = pick(&wt);
    gen_kind(cfg, kind, depth, bag)
}

pub fn gen_kind(cfg: &GenCfg, kind: usize, depth: u32, bag: &mut dyn FnMut(Id) -> Option<crate::refm::Content>) -> Arc<Spec> {
    if kind == 3 {
        return gen_err(cfg, if draw(20) == 19 { 4 + draw(if draw(6) == 5 { 66 } else { 12 }) } else { 3 });
    }
    let id = new_id();
    let ctor = draw(24);
    let mut kids = vec![];
    let body = match kind {
        0 => Body::Prim(gen_prim(cfg.edge_text)),
        1 => Body::Display(gen_text(cfg)),
        2 => Body::Debug(gen_text(cfg)),
        4 => Body::Sval(gen_sn(cfg, cfg.depth)),
        5 => Body::Serde(gen_dn(cfg, cfg.depth)),
        6 => {
            let long = gen_long();
            if let Some(n) = long {
                for _ in 0..n {
                    let id = new_id();
                    let body = match draw(4) {
                        0 => Body::Display(gen_text(cfg)),
                        1 => Body::Sval(gen_sn(cfg, 0)),
                        2 => Body::FillPrim(gen_prim(5)),
                        _ => Body::Prim(gen_prim(5)),
                    };
                    kids.push(Arc::new(Spec { id, ctor: draw(24), body, kids: vec![] }));
                }
            }
            let deep = long.is_none() && draw(50) == 49;
            if deep {
                let mut inner = gen_spec(cfg, 0, bag);
                for _ in 0..nesting() {
                    let mut kids = vec![inner];
                    if draw(3) == 2 {
                        kids.push(gen_kind(cfg, 0, 0, bag));
                    }
                    inner = Arc::new(Spec { id: new_id(), ctor: 0, body: Body::Seq, kids });
                }
                kids.push(inner);
            }
            for _ in 0..if long.is_some() || deep { 0 } else { gen_n(6) } {
                if chance(15) {
                    let kid = new_id();
                    if let Some(c) = bag(kid) {
                        kids.push(Arc::new(Spec { id: kid, ctor: draw(2), body: Body::Bag(c), kids: vec![] }));
                        continue;
                    }
                }
                if let Some(last) = kids.last().filter(|k: &&Arc<Spec>| k.kids.is_empty() && !matches!(k.body, Body::Bag(_))).cloned() {
                    if draw(16) == 15 {
                        // the same once more, as an object of its own
                        kids.push(Arc::new(Spec { id: new_id(), ctor: last.ctor, body: last.body.clone(), kids: vec![] }));
                        continue;
                    }
                }
                kids.push(gen_spec(cfg, depth - 1, bag));
            }
            Body::Seq
        }
        7 => {
            let n = gen_long().unwrap_or_else(|| gen_n(6));
            let k = draw(if crate::engine::holding() { 40 } else { 21 });
            let (c, edge) = (draw(2) == 1, cfg.edge_text);
            Body::PrimVec(
                gen_list(n, || match k {
                    0..=11 => gen_int(k),
                    12 => Prim::F64(gen_float()),
                    13 => Prim::F32(gen_f32()),
                    14 => Prim::Bool(draw(2) == 1),
                    15 => Prim::Char(gen_char()),
                    _ => Prim::Str(gen_string(if c { edge } else { 0 })),
                }),
            )
        }
        8 => Body::FillPrim(gen_prim(cfg.edge_text)),
        _ => {
            // fill with Display, Debug, Err, Sval, Serde, Seq, PrimVec or another fill
            let d = if depth > 0 { 1 } else { 0 };
            let k = [1usize, 2, 3, 4, 5, 6, 7, 8, 9][pick(&[4, 4, 2, 6, 6, 4 * d, 1, 1, d])];
            let mut inner = *cfg;
            inner.depth = cfg.depth.min(2);
            let mut kid = gen_kind(&inner, k, depth.saturating_sub(1).max(if k == 6 { 1 } else { 0 }), bag);
            if draw(30) == 29 {
                // filled through several layers
                for _ in 0..1 + draw(6) {
                    kid = Arc::new(Spec { id: new_id(), ctor: draw(24), body: Body::Fill, kids: vec![kid] });
                }
            }
            kids.push(kid);
            Body::Fill
        }
    };
    Arc::new(Spec { id, ctor, body, kids })
}
