//! Consumers: a text writer, an sval stream, a serde serializer, a visitor and
//! collections. Each records what it is given in a canonical form and can be
//! told (by the fault plan of the current operation) to refuse or panic at any
//! point. With `live` off they only record; the reference model uses them so.

use crate::alloc::harness;
use crate::rt::{self, C, F};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use value_bag::{visit::Visit, ValueBag};
use value_bag_serde1::lib as serde;
use value_bag_sval2::lib as sval;

pub const TEXT_BEGIN: char = '\u{2}';
pub const TEXT_END: char = '\u{3}';

// ---------------------------------------------------------------- text

pub struct TextSink {
    pub out: String,
    pub live: bool,
    pub whole: bool,
}

impl fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        harness(|| {
            if !self.live {
                self.out.push_str(s);
                return Ok(());
            }
            match rt::sink_write(s, self.whole) {
                Ok(()) => {
                    self.out.push_str(s);
                    Ok(())
                }
                Err(mut n) => {
                    // a byte sink: what was accepted may end inside a character;
                    // keep whole characters only
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    self.out.push_str(&s[..n]);
                    Err(fmt::Error)
                }
            }
        })
    }
}

// ---------------------------------------------------------------- sval

pub struct SvalSink {
    pub out: String,
    pub live: bool,
    pub events: u32,
    /// announced and actual length of everything that is open
    open: Vec<(Option<usize>, usize)>,
    /// an announced length turned out to be wrong
    pub bad: Option<String>,
    /// text that was lent out for as long as the streamed value lives
    pub lent: Vec<&'static str>,
}

fn num(out: &mut String, v: impl fmt::Display) {
    let _ = write!(out, "i{v};");
}

pub fn float(out: &mut String, v: f64) {
    if v.is_nan() {
        out.push_str("fNaN;");
    } else {
        let _ = write!(out, "f{:x};", v.to_bits());
    }
}

impl SvalSink {
    pub fn new(live: bool) -> Self {
        SvalSink { out: String::new(), live, events: 0, open: vec![], bad: None, lent: vec![] }
    }

    fn begin(&mut self, n: Option<usize>) {
        harness(|| self.open.push((n, 0)));
    }

    fn add(&mut self, n: usize) {
        if let Some(o) = self.open.last_mut() {
            o.1 += n;
        }
    }

    fn end(&mut self, what: &str) {
        harness(|| {
            if let Some((Some(n), k)) = self.open.pop() {
                if n != k {
                    self.bad = Some(format!("a {what} of {k} was announced as {n}"));
                }
            }
        });
    }

    fn ev(&mut self, f: impl FnOnce(&mut String)) -> sval::Result {
        harness(|| {
            if self.live && rt::sink_event(C::stream_error) == F::Err {
                return sval::error();
            }
            f(&mut self.out);
            self.events += 1;
            if self.live {
                rt::yield_point(rt::Y_SINK);
            }
            Ok(())
        })
    }
}

fn lab(l: Option<&sval::Label>) -> String {
    l.map(|l| l.as_str().to_string()).unwrap_or_default()
}

macro_rules! ints {
    ($($n:ident)*) => { $(fn $n(&mut self, v: $n) -> sval::Result { self.ev(|o| num(o, v)) })* };
}

impl<'s> sval::Stream<'s> for SvalSink {
    ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);

    fn null(&mut self) -> sval::Result {
        self.ev(|o| o.push_str("null;"))
    }
    fn bool(&mut self, v: bool) -> sval::Result {
        self.ev(|o| o.push_str(if v { "true;" } else { "false;" }))
    }
    fn f32(&mut self, v: f32) -> sval::Result {
        self.ev(|o| float(o, v as f64))
    }
    fn f64(&mut self, v: f64) -> sval::Result {
        self.ev(|o| float(o, v))
    }
    fn text_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.begin(n);
        self.ev(|o| o.push(TEXT_BEGIN))
    }
    fn text_fragment(&mut self, f: &'s str) -> sval::Result {
        if self.live {
            harness(|| self.lent.push(unsafe { &*(f as *const str) }));
        }
        self.text_fragment_computed(f)
    }
    fn text_fragment_computed(&mut self, f: &str) -> sval::Result {
        self.add(f.len());
        self.ev(|o| o.push_str(f))
    }
    fn text_end(&mut self) -> sval::Result {
        self.end("text");
        self.ev(|o| o.push(TEXT_END))
    }
    fn binary_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.begin(n);
        self.ev(|o| o.push_str("b("))
    }
    fn binary_fragment_computed(&mut self, f: &[u8]) -> sval::Result {
        self.add(f.len());
        self.ev(|o| {
            for b in f {
                let _ = write!(o, "{b:02x}");
            }
        })
    }
    fn binary_end(&mut self) -> sval::Result {
        self.end("binary");
        self.ev(|o| o.push_str(");"))
    }
    fn map_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.begin(n);
        self.ev(|o| o.push_str("{"))
    }
    fn map_key_begin(&mut self) -> sval::Result {
        self.add(1);
        self.ev(|o| o.push_str("k("))
    }
    fn map_key_end(&mut self) -> sval::Result {
        self.ev(|o| o.push_str(")k"))
    }
    fn map_value_begin(&mut self) -> sval::Result {
        self.ev(|o| o.push_str("v("))
    }
    fn map_value_end(&mut self) -> sval::Result {
        self.ev(|o| o.push_str(")v"))
    }
    fn map_end(&mut self) -> sval::Result {
        self.end("map");
        self.ev(|o| o.push_str("}"))
    }
    fn seq_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.begin(n);
        self.ev(|o| o.push_str("["))
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        self.add(1);
        self.ev(|o| o.push_str("e("))
    }
    fn seq_value_end(&mut self) -> sval::Result {
        self.ev(|o| o.push_str(")e"))
    }
    fn seq_end(&mut self) -> sval::Result {
        self.end("sequence");
        self.ev(|o| o.push_str("]"))
    }
    fn enum_begin(&mut self, _: Option<&sval::Tag>, l: Option<&sval::Label>, _: Option<&sval::Index>) -> sval::Result {
        self.ev(|o| o.push_str(&format!("enum {}(", lab(l))))
    }
    fn enum_end(&mut self, _: Option<&sval::Tag>, _: Option<&sval::Label>, _: Option<&sval::Index>) -> sval::Result {
        self.ev(|o| o.push_str(")enum"))
    }
    fn tagged_begin(&mut self, _: Option<&sval::Tag>, l: Option<&sval::Label>, _: Option<&sval::Index>) -> sval::Result {
        self.ev(|o| o.push_str(&format!("tagged {}(", lab(l))))
    }
    fn tagged_end(&mut self, _: Option<&sval::Tag>, _: Option<&sval::Label>, _: Option<&sval::Index>) -> sval::Result {
        self.ev(|o| o.push_str(")tagged"))
    }
    fn tag(&mut self, _: Option<&sval::Tag>, l: Option<&sval::Label>, _: Option<&sval::Index>) -> sval::Result {
        self.ev(|o| o.push_str(&format!("tag {};", lab(l))))
    }
    fn record_begin(&mut self, _: Option<&sval::Tag>, l: Option<&sval::Label>, _: Option<&sval::Index>, n: Option<usize>) -> sval::Result {
        self.begin(n);
        self.ev(|o| o.push_str(&format!("rec {}(", lab(l))))
    }
    fn record_value_begin(&mut self, _: Option<&sval::Tag>, l: &sval::Label) -> sval::Result {
        self.add(1);
        self.ev(|o| o.push_str(&format!("{}:(", l.as_str())))
    }
    fn record_value_end(&mut self, _: Option<&sval::Tag>, _: &sval::Label) -> sval::Result {
        self.ev(|o| o.push_str(")"))
    }
    fn record_end(&mut self, _: Option<&sval::Tag>, _: Option<&sval::Label>, _: Option<&sval::Index>) -> sval::Result {
        self.end("record");
        self.ev(|o| o.push_str(")rec"))
    }
    fn tuple_begin(&mut self, _: Option<&sval::Tag>, l: Option<&sval::Label>, _: Option<&sval::Index>, n: Option<usize>) -> sval::Result {
        self.begin(n);
        self.ev(|o| o.push_str(&format!("tup {}(", lab(l))))
    }
    fn tuple_value_begin(&mut self, _: Option<&sval::Tag>, _: &sval::Index) -> sval::Result {
        self.add(1);
        self.ev(|o| o.push_str("e("))
    }
    fn tuple_value_end(&mut self, _: Option<&sval::Tag>, _: &sval::Index) -> sval::Result {
        self.ev(|o| o.push_str(")e"))
    }
    fn tuple_end(&mut self, _: Option<&sval::Tag>, _: Option<&sval::Label>, _: Option<&sval::Index>) -> sval::Result {
        self.end("tuple");
        self.ev(|o| o.push_str(")tup"))
    }
    fn record_tuple_begin(&mut self, _: Option<&sval::Tag>, l: Option<&sval::Label>, _: Option<&sval::Index>, n: Option<usize>) -> sval::Result {
        self.begin(n);
        self.ev(|o| o.push_str(&format!("rtup {}(", lab(l))))
    }
    fn record_tuple_value_begin(&mut self, _: Option<&sval::Tag>, l: &sval::Label, _: &sval::Index) -> sval::Result {
        self.add(1);
        self.ev(|o| o.push_str(&format!("{}:(", l.as_str())))
    }
    fn record_tuple_value_end(&mut self, _: Option<&sval::Tag>, _: &sval::Label, _: &sval::Index) -> sval::Result {
        self.ev(|o| o.push_str(")"))
    }
    fn record_tuple_end(&mut self, _: Option<&sval::Tag>, _: Option<&sval::Label>, _: Option<&sval::Index>) -> sval::Result {
        self.end("record tuple");
        self.ev(|o| o.push_str(")rtup"))
    }
}

// ---------------------------------------------------------------- serde

pub struct SerLog {
    pub out: RefCell<String>,
    pub live: bool,
    pub events: Cell<u32>,
    /// an announced length turned out to be wrong
    pub bad: RefCell<Option<String>>,
}

impl SerLog {
    pub fn new(live: bool) -> Self {
        SerLog { out: RefCell::new(String::new()), live, events: Cell::new(0), bad: RefCell::new(None) }
    }

    fn ev(&self, f: impl FnOnce(&mut String)) -> Result<(), SerErr> {
        harness(|| {
            if self.live && rt::sink_event(C::serializer_error) == F::Err {
                return Err(SerErr);
            }
            f(&mut self.out.borrow_mut());
            self.events.set(self.events.get() + 1);
            if self.live {
                rt::yield_point(rt::Y_SINK);
            }
            Ok(())
        })
    }
}

#[derive(Debug)]
pub struct SerErr;

impl fmt::Display for SerErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("refused")
    }
}

impl std::error::Error for SerErr {}

impl serde::ser::Error for SerErr {
    fn custom<T: fmt::Display>(_: T) -> Self {
        SerErr
    }
}

#[derive(Clone, Copy)]
pub struct Ser<'a>(pub &'a SerLog);

/// the log, how it ends, its announced length and its length so far
pub struct Compound<'a>(&'a SerLog, &'static str, Option<usize>, usize);

macro_rules! ser_ints {
    ($($m:ident $t:ty),*) => { $(fn $m(self, v: $t) -> Result<(), SerErr> { self.0.ev(|o| num(o, v)) })* };
}

impl<'a> Ser<'a> {
    fn compound(self, head: String, end: &'static str, len: Option<usize>) -> Result<Compound<'a>, SerErr> {
        let r = self.0.ev(|o| o.push_str(&head));
        harness(|| drop(head));
        r?;
        Ok(Compound(self.0, end, len, 0))
    }
}

impl<'a> serde::Serializer for Ser<'a> {
    type Ok = ();
    type Error = SerErr;
    type SerializeSeq = Compound<'a>;
    type SerializeTuple = Compound<'a>;
    type SerializeTupleStruct = Compound<'a>;
    type SerializeTupleVariant = Compound<'a>;
    type SerializeMap = Compound<'a>;
    type SerializeStruct = Compound<'a>;
    type SerializeStructVariant = Compound<'a>;

    ser_ints!(serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128,
              serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128);

    fn serialize_bool(self, v: bool) -> Result<(), SerErr> {
        self.0.ev(|o| o.push_str(if v { "true;" } else { "false;" }))
    }
    fn serialize_f32(self, v: f32) -> Result<(), SerErr> {
        self.0.ev(|o| float(o, v as f64))
    }
    fn serialize_f64(self, v: f64) -> Result<(), SerErr> {
        self.0.ev(|o| float(o, v))
    }
    fn serialize_char(self, v: char) -> Result<(), SerErr> {
        self.0.ev(|o| {
            let _ = write!(o, "c{v};");
        })
    }
    fn serialize_str(self, v: &str) -> Result<(), SerErr> {
        self.0.ev(|o| {
            o.push(TEXT_BEGIN);
            o.push_str(v);
            o.push(TEXT_END);
        })
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> Result<(), SerErr> {
        // a serializer that writes the text as it is produced
        struct W<'a>(&'a SerLog);
        impl<'a> fmt::Write for W<'a> {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                self.0.ev(|o| o.push_str(s)).map_err(|_| fmt::Error)
            }
        }
        self.0.ev(|o| o.push(TEXT_BEGIN))?;
        write!(W(self.0), "{v}").map_err(|_| SerErr)?;
        self.0.ev(|o| o.push(TEXT_END))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), SerErr> {
        self.0.ev(|o| {
            o.push_str("b(");
            for b in v {
                let _ = write!(o, "{b:02x}");
            }
            o.push_str(");");
        })
    }
    fn serialize_none(self) -> Result<(), SerErr> {
        self.0.ev(|o| o.push_str("none;"))
    }
    fn serialize_some<T: serde::Serialize + ?Sized>(self, v: &T) -> Result<(), SerErr> {
        self.0.ev(|o| o.push_str("some("))?;
        v.serialize(self)?;
        self.0.ev(|o| o.push_str(")some"))
    }
    fn serialize_unit(self) -> Result<(), SerErr> {
        self.0.ev(|o| o.push_str("unit;"))
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<(), SerErr> {
        self.0.ev(|o| {
            let _ = write!(o, "ustruct {n};");
        })
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), SerErr> {
        self.0.ev(|o| {
            let _ = write!(o, "uvar {n}.{i}.{v};");
        })
    }
    fn serialize_newtype_struct<T: serde::Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<(), SerErr> {
        self.0.ev(|o| {
            let _ = write!(o, "nstruct {n}(");
        })?;
        v.serialize(self)?;
        self.0.ev(|o| o.push_str(")nstruct"))
    }
    fn serialize_newtype_variant<T: serde::Serialize + ?Sized>(self, n: &'static str, i: u32, vr: &'static str, v: &T) -> Result<(), SerErr> {
        self.0.ev(|o| {
            let _ = write!(o, "nvar {n}.{i}.{vr}(");
        })?;
        v.serialize(self)?;
        self.0.ev(|o| o.push_str(")nvar"))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Compound<'a>, SerErr> {
        self.compound(harness(|| "[".to_string()), "]", n)
    }
    fn serialize_tuple(self, n: usize) -> Result<Compound<'a>, SerErr> {
        self.compound(harness(|| "tup(".to_string()), ")tup", Some(n))
    }
    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<Compound<'a>, SerErr> {
        self.compound(harness(|| format!("tstruct {n}(")), ")tstruct", Some(len))
    }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Compound<'a>, SerErr> {
        self.compound(harness(|| format!("tvar {n}.{i}.{v}(")), ")tvar", Some(len))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Compound<'a>, SerErr> {
        self.compound(harness(|| "{".to_string()), "}", n)
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<Compound<'a>, SerErr> {
        self.compound(harness(|| format!("struct {n}(")), ")struct", Some(len))
    }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Compound<'a>, SerErr> {
        self.compound(harness(|| format!("svar {n}.{i}.{v}(")), ")svar", Some(len))
    }
}

impl<'a> Compound<'a> {
    fn item<T: serde::Serialize + ?Sized>(&mut self, head: &str, v: &T, tail: &str) -> Result<(), SerErr> {
        if head != "v(" {
            self.3 += 1;
        }
        self.0.ev(|o| o.push_str(head))?;
        v.serialize(Ser(self.0))?;
        self.0.ev(|o| o.push_str(tail))
    }
    fn finish(self) -> Result<(), SerErr> {
        if let Some(n) = self.2 {
            if n != self.3 {
                harness(|| *self.0.bad.borrow_mut() = Some(format!("{} entries ending with {:?} were announced as {n}", self.3, self.1)));
            }
        }
        self.0.ev(|o| o.push_str(self.1))
    }
    fn field<T: serde::Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), SerErr> {
        self.3 += 1;
        self.0.ev(|o| {
            let _ = write!(o, "{k}:(");
        })?;
        v.serialize(Ser(self.0))?;
        self.0.ev(|o| o.push_str(")"))
    }
}

macro_rules! seqlike {
    ($($tr:ident $m:ident),*) => { $(
        impl<'a> serde::ser::$tr for Compound<'a> {
            type Ok = ();
            type Error = SerErr;
            fn $m<T: serde::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SerErr> {
                self.item("e(", v, ")e")
            }
            fn end(self) -> Result<(), SerErr> {
                self.finish()
            }
        }
    )* };
}
seqlike!(SerializeSeq serialize_element, SerializeTuple serialize_element,
         SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

impl<'a> serde::ser::SerializeMap for Compound<'a> {
    type Ok = ();
    type Error = SerErr;
    fn serialize_key<T: serde::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SerErr> {
        self.item("k(", v, ")k")
    }
    fn serialize_value<T: serde::Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SerErr> {
        self.item("v(", v, ")v")
    }
    fn end(self) -> Result<(), SerErr> {
        self.finish()
    }
}

macro_rules! structlike {
    ($($tr:ident),*) => { $(
        impl<'a> serde::ser::$tr for Compound<'a> {
            type Ok = ();
            type Error = SerErr;
            fn serialize_field<T: serde::Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), SerErr> {
                self.field(k, v)
            }
            fn end(self) -> Result<(), SerErr> {
                self.finish()
            }
        }
    )* };
}
structlike!(SerializeStruct, SerializeStructVariant);

// ---------------------------------------------------------------- visitor

pub const VERDICTS: [&str; 6] =
    ["verdict 0", "verdict 1", "verdict 2", "verdict 3", "verdict 4", "an error occurred when formatting an argument"];

fn verdict(n: usize) -> value_bag::Error {
    match n {
        3 => value_bag::Error::boxed(VERDICTS[n]),
        4 => std::io::Error::new(std::io::ErrorKind::Other, VERDICTS[n]).into(),
        5 => fmt::Error.into(),
        _ => value_bag::Error::msg(VERDICTS[n]),
    }
}

/// Records each call; fails with its own verdict when told to.
pub struct VisitSink {
    pub calls: Vec<String>,
    /// calls that lend the value out for as long as the bag lives
    pub borrowed: u32,
    pub verdict: usize,
    pub lent: Vec<&'static str>,
    pub lent_err: Option<&'static (dyn std::error::Error + 'static)>,
}

impl VisitSink {
    fn call(&mut self, f: impl FnOnce() -> String) -> Result<(), value_bag::Error> {
        harness(|| {
            let s = f();
            self.calls.push(s);
            if rt::sink_event(C::visitor_error) == F::Err {
                return Err(verdict(self.verdict));
            }
            Ok(())
        })
    }
}

pub fn chain(e: &(dyn std::error::Error + 'static)) -> String {
    let mut s = String::from("error:");
    let mut cur = Some(e);
    while let Some(e) = cur {
        let mut t = TextSink { out: String::new(), live: false, whole: false };
        let ok = write!(t, "{e}").is_ok();
        s.push_str(&t.out);
        s.push_str(if ok { ";" } else { "!failed;" });
        cur = e.source();
    }
    s
}

pub fn int_call(v: impl fmt::Display) -> String {
    format!("int:{v}")
}

impl<'v> Visit<'v> for VisitSink {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), value_bag::Error> {
        let mut t = TextSink { out: String::new(), live: false, whole: false };
        let ok = write!(t, "{v}").is_ok();
        let r = self.call(|| format!("any:{}{}", t.out, if ok { "" } else { "!failed" }));
        harness(|| drop(t));
        r
    }
    fn visit_empty(&mut self) -> Result<(), value_bag::Error> {
        self.call(|| "empty".into())
    }
    fn visit_u64(&mut self, v: u64) -> Result<(), value_bag::Error> {
        self.call(|| int_call(v))
    }
    fn visit_i64(&mut self, v: i64) -> Result<(), value_bag::Error> {
        self.call(|| int_call(v))
    }
    fn visit_u128(&mut self, v: u128) -> Result<(), value_bag::Error> {
        self.call(|| int_call(v))
    }
    fn visit_i128(&mut self, v: i128) -> Result<(), value_bag::Error> {
        self.call(|| int_call(v))
    }
    fn visit_f64(&mut self, v: f64) -> Result<(), value_bag::Error> {
        self.call(|| {
            let mut s = String::new();
            float(&mut s, v);
            s
        })
    }
    fn visit_bool(&mut self, v: bool) -> Result<(), value_bag::Error> {
        self.call(|| format!("bool:{v}"))
    }
    fn visit_str(&mut self, v: &str) -> Result<(), value_bag::Error> {
        self.call(|| format!("str:{v}"))
    }
    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), value_bag::Error> {
        self.borrowed += 1;
        harness(|| self.lent.push(unsafe { &*(v as *const str) }));
        self.call(|| format!("str:{v}"))
    }
    fn visit_char(&mut self, v: char) -> Result<(), value_bag::Error> {
        self.call(|| format!("char:{v}"))
    }
    fn visit_error(&mut self, e: &(dyn std::error::Error + 'static)) -> Result<(), value_bag::Error> {
        let s = harness(|| chain(e));
        self.call(|| s)
    }
    fn visit_borrowed_error(&mut self, e: &'v (dyn std::error::Error + 'static)) -> Result<(), value_bag::Error> {
        self.borrowed += 1;
        self.lent_err = Some(unsafe { &*(e as *const (dyn std::error::Error + 'static)) });
        let s = harness(|| chain(e));
        self.call(|| s)
    }
}

/// A visitor that only has the fallback.
pub struct Bare<'a>(pub &'a mut VisitSink);

impl<'a, 'v> Visit<'v> for Bare<'a> {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), value_bag::Error> {
        Visit::visit_any(self.0, v)
    }
}

// ---------------------------------------------------------------- collections

/// A collection whose growth is a sink event (it can panic, not refuse).
pub struct Coll<T>(pub Vec<T>);

impl<T> Default for Coll<T> {
    fn default() -> Self {
        Coll(Vec::new())
    }
}

impl<T> Extend<T> for Coll<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for x in it {
            harness(|| {
                rt::sink_event_infallible();
                self.0.push(x);
            });
        }
    }
}
