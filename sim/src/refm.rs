//! The reference model: what a bag holding a given content must show. Built
//! only on the description of the captured value and on the frameworks
//! (formatting, sval, serde) themselves, never on the library under test.

use crate::sink::{float, int_call, Ser, SerErr, SerLog, SvalSink, TEXT_BEGIN, TEXT_END};
use crate::spec::*;
use std::cell::Cell;
use std::fmt::{self, Write as _};
use std::sync::Arc;
use value_bag_serde1::lib as serde;
use value_bag_serde1::lib::ser::{Error as _, SerializeSeq};
use value_bag_sval2::lib as sval;
use value_bag_sval2::lib::Stream as _;

/// In expected text: a bracketed failure marker.
pub const MARK: char = '\u{E000}';
/// In expected text: anything.
pub const ANY: char = '\u{E001}';

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    /// buffered when the object was at this generation
    Frozen(u32),
    /// the source failed while it was buffered
    Failed,
}

/// What a handle denotes.
#[derive(Clone, Debug)]
pub struct Content {
    pub spec: Arc<Spec>,
    /// the root is a shared capture
    pub shared: bool,
    pub st: Arc<Vec<(Id, St)>>,
}

impl Content {
    pub fn live(spec: Arc<Spec>, shared: bool) -> Content {
        Content { spec, shared, st: Arc::new(vec![]) }
    }

    pub fn is_frozen(&self) -> bool {
        !self.shared && !self.st.is_empty()
    }

    /// Objects owned through shared captures by a bag with this content.
    pub fn payloads(&self) -> Vec<Id> {
        if self.shared {
            return vec![self.spec.id];
        }
        let mut out = vec![];
        fn go(s: &Spec, out: &mut Vec<Id>) {
            if let Body::Bag(c) = &s.body {
                out.extend(c.payloads());
            }
            for k in &s.kids {
                go(k, out);
            }
        }
        go(&self.spec, &mut out);
        out
    }

    /// Objects whose own code runs when this content is inspected or buffered.
    pub fn evaluated(&self) -> Vec<Id> {
        let mut out = vec![];
        fn go(s: &Spec, out: &mut Vec<Id>) {
            match &s.body {
                Body::Debug(_) | Body::Display(_) | Body::Sval(_) | Body::Serde(_) | Body::FillPrim(_) | Body::Fill | Body::Err(_) => {
                    out.push(s.id)
                }
                _ => {}
            }
            for k in &s.kids {
                go(k, out);
            }
        }
        go(&self.spec, &mut out);
        out
    }

    /// Elements of the sequences read when this content is inspected or buffered.
    pub fn elements(&self) -> Vec<Id> {
        let mut out = vec![];
        fn go(s: &Spec, out: &mut Vec<Id>) {
            for k in &s.kids {
                if matches!(&s.body, Body::Seq) {
                    out.push(k.id);
                }
                go(k, out);
            }
        }
        go(&self.spec, &mut out);
        out
    }

    /// Objects whose code may run when a bag with this content is inspected.
    pub fn may_eval(&self) -> Vec<Id> {
        let mut out = if self.is_frozen() { vec![] } else { self.evaluated() };
        fn go(s: &Spec, out: &mut Vec<Id>) {
            if let Body::Bag(c) = &s.body {
                out.extend(c.may_eval());
            }
            for k in &s.kids {
                go(k, out);
            }
        }
        go(&self.spec, &mut out);
        out
    }

    /// Is any part of this captured through serde?
    pub fn has_serde(&self) -> bool {
        fn go(s: &Spec) -> bool {
            matches!(&s.body, Body::Serde(_)) || matches!(&s.body, Body::Bag(c) if c.has_serde()) || s.kids.iter().any(|k| go(k))
        }
        go(&self.spec)
    }

    /// Is any part of this captured through sval?
    pub fn has_sval(&self) -> bool {
        fn go(s: &Spec) -> bool {
            matches!(&s.body, Body::Sval(_)) || matches!(&s.body, Body::Bag(c) if c.has_sval()) || s.kids.iter().any(|k| go(k))
        }
        go(&self.spec)
    }

    /// Look for an object that's part of this.
    pub fn any(&self, id: Id, is: fn(&Body) -> bool) -> bool {
        fn go(s: &Spec, id: Id, is: fn(&Body) -> bool) -> bool {
            (s.id == id && is(&s.body)) || matches!(&s.body, Body::Bag(c) if c.any(id, is)) || s.kids.iter().any(|k| go(k, id, is))
        }
        go(&self.spec, id, is)
    }

    pub fn is_serde(&self, id: Id) -> bool {
        self.any(id, |b| matches!(b, Body::Serde(_)))
    }

    pub fn is_sval(&self, id: Id) -> bool {
        self.any(id, |b| matches!(b, Body::Sval(_)))
    }

    /// Is this the fill the whole value comes from?
    pub fn is_outer_fill(&self, id: Id) -> bool {
        let mut s: &Spec = &self.spec;
        loop {
            match &s.body {
                Body::FillPrim(_) => return s.id == id,
                Body::Fill if s.id == id => return true,
                Body::Fill => s = &s.kids[0],
                Body::Bag(c) => return c.is_outer_fill(id),
                _ => return false,
            }
        }
    }

    /// Is nothing in this buffered? Only then are flags sure to be honoured.
    pub fn styles(&self) -> bool {
        fn go(s: &Spec) -> bool {
            !matches!(&s.body, Body::Bag(c) if !c.styles()) && s.kids.iter().all(|k| go(k))
        }
        !self.is_frozen() && go(&self.spec)
    }

    pub fn has_failed(&self) -> bool {
        self.st.iter().any(|(_, s)| *s == St::Failed)
    }
}

/// How the state of each object is looked up: recorded state first, then the
/// evaluations of the operation at hand, then the current generation.
#[derive(Clone, Copy)]
pub struct Lk<'a> {
    pub c: &'a Content,
    pub evals: &'a [(u32, u32)],
    /// use the first instead of the last evaluation
    pub first: bool,
    /// objects and steps at which they reported an error
    pub failed_at: &'a [(u32, u32)],
}

enum Look {
    Live(u32),
    Frozen(u32),
    Failed,
}

impl<'a> Lk<'a> {
    fn get(&self, id: Id) -> Look {
        for (i, s) in self.c.st.iter() {
            if *i == id {
                return match s {
                    St::Frozen(g) => Look::Frozen(*g),
                    St::Failed => Look::Failed,
                };
            }
        }
        let mut it = self.evals.iter().filter(|(i, _)| *i == id);
        let e = if self.first { it.next() } else { it.last() };
        Look::Live(e.map(|(_, g)| *g).unwrap_or_else(|| gen_of(id)))
    }

    fn inner(&self, c: &'a Content) -> Lk<'a> {
        Lk { c, ..*self }
    }
}

struct AsSvalFmt<'a, V>(&'a V);

impl<'a, V: sval::Value> fmt::Display for AsSvalFmt<'a, V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        value_bag_sval2::fmt::stream_to_fmt(f, self.0)
    }
}

fn sval_buf(n: &SN, g: u32) -> value_bag_sval2::buffer::Value<'static> {
    value_bag_sval2::buffer::Value::collect_owned(SRef(n, Quiet(g))).expect("reference buffer")
}

struct SerObj<'a>(&'a DN, Failing<'a>);

impl<'a> serde::Serialize for SerObj<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let r = DRef(self.0, &self.1).serialize(s)?;
        self.1.step().map_err(|_| S::Error::custom("injected"))?;
        Ok(r)
    }
}

fn serde_buf(n: &DN, g: u32) -> value_bag_serde1::buf::Owned {
    value_bag_serde1::buf::Owned::buffer(DRef(n, &Quiet(g))).expect("reference buffer")
}

// ---------------------------------------------------------------- text

fn fmt_prim(p: &Prim, debug: bool, out: &mut String) {
    macro_rules! w {
        ($v:expr) => {
            if debug { write!(out, "{:?}", $v) } else { write!(out, "{}", $v) }
        };
    }
    let _ = match p {
        Prim::Null => write!(out, "None"),
        Prim::Bool(v) => w!(v),
        Prim::I8(v) => w!(v),
        Prim::U8(v) => w!(v),
        Prim::I16(v) => w!(v),
        Prim::U16(v) => w!(v),
        Prim::I32(v) => w!(v),
        Prim::U32(v) => w!(v),
        Prim::I64(v) => w!(v),
        Prim::U64(v) => w!(v),
        Prim::Isize(v) => w!(v),
        Prim::Usize(v) => w!(v),
        Prim::I128(v) => w!(v),
        Prim::U128(v) => w!(v),
        Prim::F32(v) => w!(v),
        Prim::F64(v) => w!(v),
        Prim::Char(v) => w!(v),
        Prim::Str(v) => w!(v),
    };
}

pub fn text(lk: Lk, s: &Spec, debug: bool, out: &mut String) {
    let look = lk.get(s.id);
    if let Look::Failed = look {
        out.push(if debug && matches!(s.body, Body::Err(_)) { ANY } else { MARK });
        return;
    }
    let (g, frozen) = match look {
        Look::Frozen(g) => (g, true),
        Look::Live(g) => (g, false),
        Look::Failed => unreachable!(),
    };
    match &s.body {
        Body::Prim(p) | Body::FillPrim(p) => fmt_prim(p, debug, out),
        Body::Debug(t) | Body::Display(t) => out.push_str(&concat(t, g)),
        Body::Err(t) => {
            if !debug {
                out.push_str(&concat(t, g));
            } else if frozen {
                out.push(ANY);
            } else {
                let _ = write!(out, "E({})", concat(t, g));
            }
        }
        Body::Sval(n) => {
            let _ = if frozen {
                write!(out, "{}", AsSvalFmt(&sval_buf(n, g)))
            } else {
                write!(out, "{}", AsSvalFmt(&SRef(n, Quiet(g))))
            };
        }
        Body::Serde(n) => {
            let _ = if frozen {
                write!(out, "{:?}", value_bag_serde1::fmt::to_debug(serde_buf(n, g)))
            } else {
                // a failure shows as a note where it happened, by design of the formatter
                let at: Vec<u32> = lk.failed_at.iter().filter(|(i, _)| *i == s.id).map(|(_, k)| *k).collect();
                write!(out, "{:?}", value_bag_serde1::fmt::to_debug(SerObj(n, Failing { gen: g, at: &at, n: Cell::new(0) })))
            };
        }
        Body::Seq => {
            out.push('[');
            for (i, k) in s.kids.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                text(lk, k, true, out);
            }
            out.push(']');
        }
        Body::PrimVec(v) => {
            out.push('[');
            for (i, p) in v.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                fmt_prim(p, true, out);
            }
            out.push(']');
        }
        Body::Fill => text(lk, &s.kids[0], debug, out),
        Body::Bag(c) => text(lk.inner(c), &c.spec, debug, out),
    }
}

/// Formatting with flags: alternate, width, fill, sign, precision, hexadecimal.
pub const STYLES: u32 = 8;

pub fn write_styled<T: fmt::Display + fmt::Debug + ?Sized>(w: &mut dyn fmt::Write, style: u32, v: &T) -> fmt::Result {
    match style {
        0 => write!(w, "{v:#?}"),
        1 => write!(w, "{v:#}"),
        2 => write!(w, "{v:>14}"),
        3 => write!(w, "{v:<9?}"),
        4 => write!(w, "{v:+08.2}"),
        5 => write!(w, "{v:^7.3}"),
        6 => write!(w, "{v:#x?}"),
        _ => write!(w, "{v:*^12?}"),
    }
}

struct Styled<'a>(Lk<'a>, &'a Spec);

impl<'a> Styled<'a> {
    fn go(&self, f: &mut fmt::Formatter, debug: bool) -> fmt::Result {
        let (lk, s) = (self.0, self.1);
        match &s.body {
            Body::Prim(p) | Body::FillPrim(p) => PrimFmt(p).go(f, debug),
            Body::Sval(n) => match lk.get(s.id) {
                Look::Live(g) => value_bag_sval2::fmt::stream_to_fmt(f, SRef(n, Quiet(g))),
                _ => unreachable!(),
            },
            Body::Serde(n) => match lk.get(s.id) {
                Look::Live(g) => {
                    let at: Vec<u32> = lk.failed_at.iter().filter(|(i, _)| *i == s.id).map(|(_, k)| *k).collect();
                    fmt::Debug::fmt(&value_bag_serde1::fmt::to_debug(SerObj(n, Failing { gen: g, at: &at, n: Cell::new(0) })), f)
                }
                _ => unreachable!(),
            },
            Body::Seq => f.debug_list().entries(s.kids.iter().map(|k| Styled(lk, k))).finish(),
            Body::PrimVec(v) => f.debug_list().entries(v.iter().map(PrimFmt)).finish(),
            Body::Fill => Styled(lk, &s.kids[0]).go(f, debug),
            Body::Bag(c) => Styled(lk.inner(c), &c.spec).go(f, debug),
            // these ignore what they are asked for
            Body::Debug(_) | Body::Display(_) | Body::Err(_) => {
                let mut t = String::new();
                text(lk, s, debug, &mut t);
                f.write_str(&t)
            }
        }
    }
}

impl<'a> fmt::Debug for Styled<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.go(f, true)
    }
}

impl<'a> fmt::Display for Styled<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.go(f, false)
    }
}

struct PrimFmt<'a>(&'a Prim);

impl<'a> PrimFmt<'a> {
    fn go(&self, f: &mut fmt::Formatter, debug: bool) -> fmt::Result {
        macro_rules! w {
            ($v:expr) => {
                if debug { fmt::Debug::fmt($v, f) } else { fmt::Display::fmt($v, f) }
            };
        }
        match self.0 {
            Prim::Null => f.write_str("None"),
            Prim::Bool(v) => w!(v),
            Prim::I8(v) => w!(&(*v as i64)),
            Prim::U8(v) => w!(&(*v as u64)),
            Prim::I16(v) => w!(&(*v as i64)),
            Prim::U16(v) => w!(&(*v as u64)),
            Prim::I32(v) => w!(&(*v as i64)),
            Prim::U32(v) => w!(&(*v as u64)),
            Prim::I64(v) => w!(v),
            Prim::U64(v) => w!(v),
            Prim::Isize(v) => w!(&(*v as i64)),
            Prim::Usize(v) => w!(v),
            Prim::I128(v) => w!(v),
            Prim::U128(v) => w!(v),
            Prim::F32(v) => w!(&(*v as f64)),
            Prim::F64(v) => w!(v),
            Prim::Char(v) => w!(v),
            Prim::Str(v) => w!(v),
        }
    }
}

impl<'a> fmt::Debug for PrimFmt<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.go(f, true)
    }
}

pub fn styled(lk: Lk, s: &Spec, style: u32, out: &mut String) {
    let _ = write_styled(out, style, &Styled(lk, s));
}

/// Does `got` match the expected pattern, completely or as a leading part?
pub fn matches(pat: &str, got: &str, prefix: bool) -> bool {
    if !pat.contains([MARK, ANY]) {
        return if prefix { pat.starts_with(got) } else { pat == got };
    }
    let p: Vec<char> = pat.chars().collect();
    let g: Vec<char> = got.chars().collect();
    // from where on a wildcard is known to lead nowhere
    let mut dead = vec![usize::MAX; p.len()];
    fn go(p: &[char], g: &[char], mut i: usize, mut j: usize, prefix: bool, dead: &mut Vec<usize>) -> bool {
        loop {
            if j == g.len() && prefix {
                return true;
            }
            if i == p.len() {
                return j == g.len();
            }
            if p[i] == ANY {
                for k in j..=g.len() {
                    if k >= dead[i] {
                        break;
                    }
                    if go(p, g, i + 1, k, prefix, dead) {
                        return true;
                    }
                }
                dead[i] = dead[i].min(j);
                return false;
            }
            if j == g.len() {
                return false;
            }
            if p[i] == MARK {
                if g[j] != '<' {
                    return false;
                }
                let mut e = j + 1;
                while e < g.len() && g[e] != '>' && g[e] != '<' {
                    e += 1;
                }
                if e == g.len() {
                    return prefix;
                }
                if g[e] != '>' {
                    return false;
                }
                j = e + 1;
            } else {
                if p[i] != g[j] {
                    return false;
                }
                j += 1;
            }
            i += 1;
        }
    }
    go(&p, &g, 0, 0, prefix, &mut dead)
}

// ---------------------------------------------------------------- sval

fn sval_text(s: &mut SvalSink, t: &str) -> Result<(), ()> {
    s.out.push(TEXT_BEGIN);
    s.out.push_str(t);
    s.out.push(TEXT_END);
    Ok(())
}

fn sval_prim(s: &mut SvalSink, p: &Prim) -> Result<(), ()> {
    match p {
        Prim::Null => s.null(),
        Prim::Bool(v) => s.bool(*v),
        Prim::I8(v) => s.i8(*v),
        Prim::U8(v) => s.u8(*v),
        Prim::I16(v) => s.i16(*v),
        Prim::U16(v) => s.u16(*v),
        Prim::I32(v) => s.i32(*v),
        Prim::U32(v) => s.u32(*v),
        Prim::I64(v) => s.i64(*v),
        Prim::U64(v) => s.u64(*v),
        Prim::Isize(v) => s.i64(*v as i64),
        Prim::Usize(v) => s.u64(*v as u64),
        Prim::I128(v) => s.i128(*v),
        Prim::U128(v) => s.u128(*v),
        Prim::F32(v) => s.f32(*v),
        Prim::F64(v) => s.f64(*v),
        Prim::Char(c) => return sval_text(s, &c.to_string()),
        Prim::Str(v) => return sval_text(s, v),
    }
    .map_err(|_| ())
}

/// The complete stream; `Err` if it must end in an error where the log ends.
pub fn sval_log(lk: Lk, s: &Spec, out: &mut SvalSink) -> Result<(), ()> {
    let (g, frozen) = match lk.get(s.id) {
        Look::Failed => {
            return match s.body {
                Body::Debug(_) | Body::Display(_) | Body::Err(_) => sval_text(out, &MARK.to_string()),
                _ => Err(()),
            }
        }
        Look::Frozen(g) => (g, true),
        Look::Live(g) => (g, false),
    };
    match &s.body {
        Body::Prim(p) | Body::FillPrim(p) => sval_prim(out, p),
        Body::Debug(t) | Body::Display(t) | Body::Err(t) => sval_text(out, &concat(t, g)),
        Body::Sval(n) => {
            if frozen {
                let v = sval_buf(n, g);
                sval::stream_computed(out, &v).map_err(|_| ())
            } else {
                sval::stream_computed(out, &SRef(n, Quiet(g))).map_err(|_| ())
            }
        }
        Body::Serde(n) => {
            if frozen {
                value_bag_sval2::serde1::stream(out, serde_buf(n, g)).map_err(|_| ())
            } else {
                value_bag_sval2::serde1::stream(out, DRef(n, &Quiet(g))).map_err(|_| ())
            }
        }
        Body::Seq => {
            let _ = out.seq_begin(None);
            for k in &s.kids {
                let _ = out.seq_value_begin();
                sval_log(lk, k, out)?;
                let _ = out.seq_value_end();
            }
            let _ = out.seq_end();
            Ok(())
        }
        Body::PrimVec(v) => {
            let _ = out.seq_begin(None);
            for p in v {
                let _ = out.seq_value_begin();
                sval_prim(out, p)?;
                let _ = out.seq_value_end();
            }
            let _ = out.seq_end();
            Ok(())
        }
        Body::Fill => sval_log(lk, &s.kids[0], out),
        Body::Bag(c) => sval_log(lk.inner(c), &c.spec, out),
    }
}

// ---------------------------------------------------------------- serde

struct RefSer<'a>(Lk<'a>, &'a Spec);

struct PrimSer<'a>(&'a Prim);

impl<'a> serde::Serialize for PrimSer<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        ser_prim(self.0, s)
    }
}

impl<'a> serde::Serialize for RefSer<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let lk = self.0;
        let (g, frozen) = match lk.get(self.1.id) {
            Look::Failed => {
                return match self.1.body {
                    Body::Debug(_) | Body::Display(_) | Body::Err(_) => s.serialize_str(&MARK.to_string()),
                    _ => Err(S::Error::custom("failed")),
                }
            }
            Look::Frozen(g) => (g, true),
            Look::Live(g) => (g, false),
        };
        match &self.1.body {
            Body::Prim(p) | Body::FillPrim(p) => ser_prim(p, s),
            Body::Debug(t) | Body::Display(t) | Body::Err(t) => s.serialize_str(&concat(t, g)),
            Body::Sval(n) => {
                if frozen {
                    value_bag_sval2::serde1::serialize(s, sval_buf(n, g))
                } else {
                    value_bag_sval2::serde1::serialize(s, SRef(n, Quiet(g)))
                }
            }
            Body::Serde(n) => {
                if frozen {
                    serde_buf(n, g).serialize(s)
                } else {
                    DRef(n, &Quiet(g)).serialize(s)
                }
            }
            Body::Seq => {
                let mut q = s.serialize_seq(None)?;
                for k in &self.1.kids {
                    q.serialize_element(&RefSer(lk, k))?;
                }
                q.end()
            }
            Body::PrimVec(v) => {
                let mut q = s.serialize_seq(None)?;
                for p in v {
                    q.serialize_element(&PrimSer(p))?;
                }
                q.end()
            }
            Body::Fill => RefSer(lk, &self.1.kids[0]).serialize(s),
            Body::Bag(c) => RefSer(lk.inner(c), &c.spec).serialize(s),
        }
    }
}

pub fn serde_log(lk: Lk, s: &Spec) -> (String, u32, Result<(), ()>) {
    let log = SerLog::new(false);
    let r: Result<(), SerErr> = serde::Serialize::serialize(&RefSer(lk, s), Ser(&log));
    let n = log.events.get();
    (log.out.into_inner(), n, r.map_err(|_| ()))
}

// ---------------------------------------------------------------- classification

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i128),
    Big(u128),
    F(f64),
    Char(char),
    Str(String),
}

/// What a value is to the visitor and cast interfaces.
#[derive(Clone, Debug)]
pub enum Cl {
    Val(Val),
    /// messages of the chain of causes
    Err(Vec<String>),
    Any,
    /// refuses with an error
    Fail,
}

fn big(v: u128) -> Val {
    i128::try_from(v).map(Val::Int).unwrap_or(Val::Big(v))
}

pub fn prim_val(p: &Prim) -> Val {
    match p {
        Prim::Null => Val::Null,
        Prim::Bool(v) => Val::Bool(*v),
        Prim::I8(v) => Val::Int(*v as i128),
        Prim::U8(v) => Val::Int(*v as i128),
        Prim::I16(v) => Val::Int(*v as i128),
        Prim::U16(v) => Val::Int(*v as i128),
        Prim::I32(v) => Val::Int(*v as i128),
        Prim::U32(v) => Val::Int(*v as i128),
        Prim::I64(v) => Val::Int(*v as i128),
        Prim::U64(v) => Val::Int(*v as i128),
        Prim::Isize(v) => Val::Int(*v as i128),
        Prim::Usize(v) => Val::Int(*v as i128),
        Prim::I128(v) => Val::Int(*v),
        Prim::U128(v) => big(*v),
        Prim::F32(v) => Val::F(*v as f64),
        Prim::F64(v) => Val::F(*v),
        Prim::Char(c) => Val::Char(*c),
        Prim::Str(s) => Val::Str(s.clone()),
    }
}

fn sn_class(n: &SN, g: u32) -> Cl {
    match n {
        SN::P(Prim::Char(c)) => Cl::Val(Val::Str(c.to_string())),
        SN::P(p) => Cl::Val(prim_val(p)),
        SN::Gen => Cl::Val(Val::Int(g as i128)),
        SN::Text(t, _) => Cl::Val(Val::Str(concat(t, g))),
        SN::Tagged(_, x) | SN::Some(x) => sn_class(x, g),
        SN::Tag(l) => Cl::Val(Val::Str(LABELS[*l].to_string())),
        SN::None => Cl::Val(Val::Null),
        SN::Bin(_) | SN::Seq(_) | SN::Tuple(_) | SN::Map(_) | SN::Record(_) => Cl::Any,
    }
}

fn dn_class(n: &DN, g: u32) -> Cl {
    match n {
        DN::P(p) => Cl::Val(prim_val(p)),
        DN::Gen => Cl::Val(Val::Int(g as i128)),
        DN::Text(t) | DN::Collect(t) => Cl::Val(Val::Str(concat(t, g))),
        DN::Unit | DN::None => Cl::Val(Val::Null),
        DN::Some(x) => dn_class(x, g),
        _ => Cl::Any,
    }
}

pub fn class(lk: Lk, s: &Spec) -> Cl {
    let g = match lk.get(s.id) {
        Look::Failed => {
            return match s.body {
                Body::Debug(_) | Body::Display(_) => Cl::Any,
                Body::Err(_) => Cl::Err(chain(lk, s)),
                _ => Cl::Fail,
            }
        }
        Look::Frozen(g) | Look::Live(g) => g,
    };
    match &s.body {
        Body::Prim(p) | Body::FillPrim(p) => Cl::Val(prim_val(p)),
        Body::Debug(_) | Body::Display(_) => Cl::Any,
        Body::Err(_) => Cl::Err(chain(lk, s)),
        Body::Sval(n) => sn_class(n, g),
        Body::Serde(n) => dn_class(n, g),
        Body::Seq | Body::PrimVec(_) => Cl::Any,
        Body::Fill => class(lk, &s.kids[0]),
        Body::Bag(c) => class(lk.inner(c), &c.spec),
    }
}

fn chain(lk: Lk, s: &Spec) -> Vec<String> {
    let mut out = vec![];
    let mut cur = Some(s);
    while let Some(s) = cur {
        let mut t = String::new();
        text(lk, s, false, &mut t);
        out.push(t);
        cur = s.kids.first().map(|k| &**k);
    }
    out
}

/// The single call a visitor must receive (a pattern); `None`: a refusal.
pub fn visit_call(lk: Lk, s: &Spec, bare: bool) -> Option<String> {
    let cl = class(lk, s);
    if bare && !matches!(cl, Cl::Any | Cl::Fail) {
        // everything arrives as a bag of its own
        return Some(match cl {
            Cl::Err(m) => format!("any:{}", m[0]),
            Cl::Val(Val::Null) => "any:None".into(),
            Cl::Val(Val::Bool(v)) => format!("any:{v}"),
            Cl::Val(Val::Int(v)) => format!("any:{v}"),
            Cl::Val(Val::Big(v)) => format!("any:{v}"),
            Cl::Val(Val::F(v)) => format!("any:{v}"),
            Cl::Val(Val::Char(v)) => format!("any:{v}"),
            Cl::Val(Val::Str(v)) => format!("any:{v}"),
            Cl::Any | Cl::Fail => unreachable!(),
        });
    }
    match cl {
        Cl::Fail => None,
        Cl::Any => {
            let mut t = String::from("any:");
            text(lk, s, false, &mut t);
            Some(t)
        }
        Cl::Err(m) => {
            let mut t = String::from("error:");
            for x in m {
                t.push_str(&x);
                t.push(';');
            }
            Some(t)
        }
        Cl::Val(v) => Some(match v {
            Val::Null => "empty".into(),
            Val::Bool(b) => format!("bool:{b}"),
            Val::Int(i) => int_call(i),
            Val::Big(i) => int_call(i),
            Val::F(f) => {
                let mut t = String::new();
                float(&mut t, f);
                t
            }
            Val::Char(c) => format!("char:{c}"),
            Val::Str(s) => format!("str:{s}"),
        }),
    }
}

/// Results of one conversion, all in one comparable form.
#[derive(Clone, Debug, PartialEq)]
pub enum Cv {
    None,
    I(i128),
    U(u128),
    F(u64),
    B(bool),
    C(char),
    S(String),
}

pub fn fbits(f: f64) -> Cv {
    Cv::F(if f.is_nan() { u64::MAX } else { f.to_bits() })
}

pub fn int_cv(i: i128) -> Cv {
    Cv::I(i)
}

pub fn uint_cv(u: u128) -> Cv {
    i128::try_from(u).map(Cv::I).unwrap_or(Cv::U(u))
}

pub const CAST_NAMES: [&str; 28] = [
    "u64", "i64", "u128", "i128", "f64", "as f64", "bool", "char", "string", "borrowed string", "u8 (try)", "u16 (try)", "u32 (try)", "usize (try)", "i8 (try)",
    "i16 (try)", "i32 (try)", "isize (try)", "u64 (try)", "i64 (try)", "u128 (try)", "i128 (try)", "f64 (try)", "bool (try)", "char (try)", "String (try)",
    "Cow (try)", "&str (try)",
];

/// The conversion that one of the others goes by.
pub fn base(which: usize) -> usize {
    match which {
        10..=17 => 3,
        18..=27 => [0, 1, 2, 3, 4, 6, 7, 8, 8, 9][which - 18],
        w => w,
    }
}

fn fits(i: i128, which: usize) -> bool {
    match which {
        10 => u8::try_from(i).is_ok(),
        11 => u16::try_from(i).is_ok(),
        12 => u32::try_from(i).is_ok(),
        13 => usize::try_from(i).is_ok(),
        14 => i8::try_from(i).is_ok(),
        15 => i16::try_from(i).is_ok(),
        16 => i32::try_from(i).is_ok(),
        17 => isize::try_from(i).is_ok(),
        _ => true,
    }
}

pub fn cast(v: Option<&Val>, which: usize) -> Cv {
    let none = if which == 5 { fbits(f64::NAN) } else { Cv::None };
    let Some(v) = v else { return none };
    match (which, v) {
        (0, Val::Int(i)) if u64::try_from(*i).is_ok() => int_cv(*i),
        (1, Val::Int(i)) if i64::try_from(*i).is_ok() => int_cv(*i),
        (2, Val::Int(i)) if *i >= 0 => int_cv(*i),
        (2, Val::Big(u)) => uint_cv(*u),
        (3, Val::Int(i)) => int_cv(*i),
        (4, Val::Int(i)) if u32::try_from(*i).is_ok() || i32::try_from(*i).is_ok() => fbits(*i as f64),
        (4, Val::F(f)) | (5, Val::F(f)) => fbits(*f),
        (5, Val::Int(i)) => fbits(*i as f64),
        (5, Val::Big(u)) => fbits(*u as f64),
        (6, Val::Bool(b)) => Cv::B(*b),
        (7, Val::Char(c)) => Cv::C(*c),
        (8, Val::Str(s)) => Cv::S(s.clone()),
        _ => none,
    }
}

pub fn cast_of(c: &Cl, which: usize) -> Cv {
    match c {
        Cl::Val(Val::Int(i)) if !fits(*i, which) => Cv::None,
        Cl::Val(v) => cast(Some(v), base(which).min(8)),
        _ => cast(None, base(which).min(8)),
    }
}

/// Conversions that may or may not go through: to a float from an integer that
/// fits 32 bits unsigned but not signed, which depends on its recorded sign.
pub fn either(c: &Cl, which: usize) -> bool {
    base(which) == 4 && matches!(c, Cl::Val(Val::Int(i)) if i32::try_from(*i).is_err() && u32::try_from(*i).is_ok())
}

/// Does the borrowed (never buffered) form of this lend a string?
pub fn direct_str(s: &Spec) -> bool {
    matches!(&s.body, Body::Prim(Prim::Str(_)) | Body::Sval(SN::P(Prim::Str(_))))
}

#[derive(Clone, Debug)]
pub enum SeqExp {
    /// not a sequence
    No,
    /// one entry per element; the flag: borrowing the string must work
    Slots(Vec<(Cl, bool, Option<Id>)>),
    /// not pinned down
    Unspecified,
}

fn sn_seq(n: &SN, g: u32, direct: bool) -> SeqExp {
    match n {
        SN::Seq(v) | SN::Tuple(v) => SeqExp::Slots(v.iter().map(|x| (sn_class(x, g), direct && matches!(x, SN::P(Prim::Str(_))), None)).collect()),
        SN::Tagged(_, x) | SN::Some(x) => sn_seq(x, g, direct),
        SN::Map(_) | SN::Record(_) | SN::Bin(_) => SeqExp::Unspecified,
        _ => SeqExp::No,
    }
}

fn dn_seq(n: &DN, g: u32) -> SeqExp {
    match n {
        DN::Seq(v) | DN::Tuple(v) => SeqExp::Slots(v.iter().map(|x| (dn_class(x, g), false, None)).collect()),
        DN::Some(x) => dn_seq(x, g),
        DN::TupleStruct(..) | DN::TupleVariant(..) | DN::NewStruct(..) | DN::NewVariant(..) => SeqExp::Unspecified,
        _ => SeqExp::No,
    }
}

pub fn seq_exp(lk: Lk, s: &Spec, borrowed: bool) -> SeqExp {
    let (g, frozen) = match lk.get(s.id) {
        Look::Failed => return SeqExp::No,
        Look::Frozen(g) => (g, true),
        Look::Live(g) => (g, false),
    };
    let direct = borrowed && !frozen && !lk.c.shared && lk.c.st.is_empty();
    match &s.body {
        Body::Seq => SeqExp::Slots(
            s.kids.iter().map(|k| (class(lk, k), direct && direct_str(k), Some(k.id))).collect(),
        ),
        Body::PrimVec(v) => SeqExp::Slots(
            v.iter().map(|p| (Cl::Val(prim_val(p)), direct && matches!(p, Prim::Str(_)), None)).collect(),
        ),
        Body::Sval(n) => sn_seq(n, g, direct),
        Body::Serde(n) => dn_seq(n, g),
        Body::Fill => match seq_exp(lk, &s.kids[0], false) {
            SeqExp::Slots(v) => SeqExp::Slots(v.into_iter().map(|(c, _, i)| (c, false, i)).collect()),
            x => x,
        },
        Body::Bag(c) => seq_exp(lk.inner(c), &c.spec, false),
        _ => SeqExp::No,
    }
}
