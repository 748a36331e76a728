//! serde: round trips through human-readable and binary formats, arbitrary bytes
use crate::num::*;
use crate::rt::*;
use pgnumeric::{Numeric, NumericBuf};
use serde::de::{self, Deserialize, Deserializer, Visitor};
use serde::ser::{self, Impossible, Serialize, Serializer};
use std::fmt;

#[derive(Debug)]
struct E;
impl fmt::Display for E {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}
/// what a value is written as; a format keeps strings, byte strings and sequences apart
enum Out {
    Str(String),
    Bytes(Aligned),
    Seq(Vec<u8>),
}
/// bytes held where a numeric may be borrowed from them
struct Aligned(Vec<u32>, usize);
impl Aligned {
    fn new(b: &[u8]) -> Aligned {
        let mut v: Vec<u32> = vec![0; b.len() / 4 + 1];
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, b.len()) };
        Aligned(v, b.len())
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.1) }
    }
}
struct Ser {
    human: bool,
}
struct SerSeq(Vec<u8>);
impl ser::SerializeSeq for SerSeq {
    type Ok = Out;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.0.push(v.serialize(Byte)?);
        Ok(())
    }
    fn end(self) -> Result<Out, E> {
        Ok(Out::Seq(self.0))
    }
}
macro_rules! refuse {
    ($($f:ident: $t:ty),* $(,)?) => { $(fn $f(self, _: $t) -> Result<Self::Ok, E> { Err(E) })* };
}
macro_rules! rest {
    ($ok:ty) => {
        type SerializeTuple = Impossible<$ok, E>;
        type SerializeTupleStruct = Impossible<$ok, E>;
        type SerializeTupleVariant = Impossible<$ok, E>;
        type SerializeMap = Impossible<$ok, E>;
        type SerializeStruct = Impossible<$ok, E>;
        type SerializeStructVariant = Impossible<$ok, E>;
        refuse! { serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
            serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char }
        fn serialize_none(self) -> Result<$ok, E> { Err(E) }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<$ok, E> { Err(E) }
        fn serialize_unit(self) -> Result<$ok, E> { Err(E) }
        fn serialize_unit_struct(self, _: &'static str) -> Result<$ok, E> { Err(E) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<$ok, E> { Err(E) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<$ok, E> { v.serialize(self) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<$ok, E> { Err(E) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
    };
}
impl Serializer for Ser {
    type Ok = Out;
    type Error = E;
    type SerializeSeq = SerSeq;
    rest!(Out);
    refuse! { serialize_u8: u8 }
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_str(self, v: &str) -> Result<Out, E> {
        Ok(Out::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Out, E> {
        Ok(Out::Bytes(Aligned::new(v)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SerSeq, E> {
        Ok(SerSeq(vec![]))
    }
}
struct Byte;
impl Serializer for Byte {
    type Ok = u8;
    type Error = E;
    type SerializeSeq = Impossible<u8, E>;
    rest!(u8);
    refuse! { serialize_str: &str, serialize_bytes: &[u8] }
    fn serialize_u8(self, v: u8) -> Result<u8, E> {
        Ok(v)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E)
    }
}
/// hands out what was written: borrowed from the input, transient, or owned
struct De<'a> {
    human: bool,
    how: i64,
    v: &'a Out,
}
struct SeqDe<'a>(&'a [u8]);
impl<'de> de::SeqAccess<'de> for SeqDe<'de> {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.0.is_empty() {
            return Ok(None);
        }
        let x = self.0[0];
        self.0 = &self.0[1..];
        seed.deserialize(de::value::U8Deserializer::new(x)).map(Some)
    }
}
impl<'de> Deserializer<'de> for De<'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match (self.v, self.how) {
            (Out::Str(s), 0) => v.visit_borrowed_str(s),
            (Out::Str(s), 1) => v.visit_str(s),
            (Out::Str(s), _) => v.visit_string(s.clone()),
            (Out::Bytes(b), 0) => v.visit_borrowed_bytes(b.get()),
            (Out::Bytes(b), 1) => v.visit_bytes(b.get()),
            (Out::Bytes(b), _) => v.visit_byte_buf(b.get().to_vec()),
            (Out::Seq(b), _) => v.visit_seq(SeqDe(b)),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
fn operand() -> Num {
    match choose(0, 2) {
        0 => Num::nan(),
        1 => small(2),
        _ => any_shape(),
    }
}
/// what is written reads back as the same numeric, bit for bit
#[no_mangle]
pub extern "C" fn check_serde_roundtrip() {
    let a = operand();
    let ea = a.enc();
    let x = ea.num();
    let human = choose(0, 1) == 1;
    let w = match choose(0, 1) {
        0 => x.serialize(Ser { human }),
        _ => x.to_owned().serialize(Ser { human }),
    };
    let w = match w {
        Ok(w) => w,
        Err(_) => {
            fail("a numeric does not serialize");
            return;
        }
    };
    if human {
        match &w {
            Out::Str(s) => check(s.len() == x.to_string().len() && *s == x.to_string(), "human-readable form is not the text"),
            _ => fail("human-readable form is not a string"),
        }
    }
    let how = choose(0, 2);
    match NumericBuf::deserialize(De { human, how, v: &w }) {
        Ok(r) => {
            dec(&r);
            check(r.as_bytes().len() == ea.bytes().len() && r.as_bytes() == ea.bytes(), "deserialized numeric differs from the serialized one");
            reach("owned");
        }
        Err(_) => fail("a serialized numeric does not deserialize"),
    }
    if how == 0 {
        match <&Numeric>::deserialize(De { human, how, v: &w }) {
            Ok(r) => {
                check(!human, "borrowed numeric from text");
                check(r.as_bytes().len() == ea.bytes().len() && r.as_bytes() == ea.bytes(), "deserialized numeric differs from the serialized one");
                reach("borrowed");
            }
            Err(_) => check(human, "a serialized numeric does not deserialize by reference"),
        }
    }
}
/// the words after the length are those of a numeric in canonical form
fn canonical(w: &[u16]) -> bool {
    if w.is_empty() {
        return false;
    }
    let h = w[0] as i64;
    if h >= 0xC000 {
        return h == 0xC000 && w.len() == 1;
    }
    let (neg, ds, wt, d): (bool, i64, i64, &[u16]) = if h >= 0x8000 {
        let x = h % 128;
        (h >= 0xA000, h / 128 % 64, if x >= 64 { x - 128 } else { x }, &w[1..])
    } else {
        if w.len() < 2 {
            return false;
        }
        let (ds, wt) = (h % 0x4000, w[1] as i16 as i64);
        if ds <= 63 && wt >= -64 && wt <= 63 || wt < -32767 {
            return false;
        }
        (h >= 0x4000, ds, wt, &w[2..])
    };
    if d.is_empty() {
        return !neg && wt == 0;
    }
    let n = d.len();
    if d[0] == 0 || d[n - 1] == 0 {
        return false;
    }
    for x in d {
        if *x > 9999 {
            return false;
        }
    }
    // decimal digits of the last base digit that the display scale shows
    let r = ds - 4 * (n as i64 - 2 - wt);
    let l = d[n - 1] as i64;
    if r >= 4 {
        true
    } else if r == 3 {
        l % 10 == 0
    } else if r == 2 {
        l % 100 == 0
    } else if r == 1 {
        l % 1000 == 0
    } else {
        false
    }
}
/// arbitrary bytes are refused unless they are a numeric in canonical form
#[no_mangle]
pub extern "C" fn check_serde_bytes() {
    let top = if thorough() { 7 } else { 5 };
    let n = choose(0, top) as usize;
    let mut ws: Vec<u16> = vec![];
    let mut lenok = n >= 3;
    for i in 0..n {
        if i == 0 {
            // the length: right, or anything else
            let v = (n * 2) as u32;
            let v = if cfg!(feature = "big-endian-varlen") { v.to_be() } else { v << 2 };
            match choose(0, 2) {
                0 => {
                    ws.push(v as u16);
                    ws.push((v >> 16) as u16);
                }
                1 => {
                    ws.push(any(0, 0xFFFF) as u16);
                    ws.push((v >> 16) as u16);
                    lenok &= ws[0] == v as u16;
                }
                _ => {
                    ws.push(v as u16);
                    ws.push(any(0, 0xFFFF) as u16);
                    lenok &= ws[1] == (v >> 16) as u16;
                }
            }
        } else if i > 1 {
            ws.push(any(0, 0xFFFF) as u16);
        }
    }
    ws.truncate(n);
    // an odd number of bytes, any alignment
    let cut = if n > 0 { choose(0, 1) as usize } else { 0 };
    let off = choose(0, 1) as usize;
    let len = 2 * n - cut;
    let mut buf: Vec<u32> = vec![0; n / 2 + 2];
    let p = unsafe { (buf.as_mut_ptr() as *mut u8).add(off) };
    for (i, w) in ws.iter().enumerate() {
        unsafe { (p.add(2 * i) as *mut u16).write_unaligned(*w) };
    }
    let bytes = unsafe { std::slice::from_raw_parts(p, len) };
    let ok = lenok && cut == 0 && canonical(&ws[2..]);
    struct Raw<'a>(&'a [u8], i64);
    impl<'de> Deserializer<'de> for Raw<'de> {
        type Error = E;
        fn is_human_readable(&self) -> bool {
            false
        }
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
            if self.1 == 0 {
                v.visit_bytes(self.0)
            } else {
                v.visit_borrowed_bytes(self.0)
            }
        }
        serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
            newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
        }
    }
    let how = choose(0, 2);
    if how == 2 {
        match <&Numeric>::deserialize(Raw(bytes, 1)) {
            Ok(r) => {
                check(ok, "invalid bytes accepted");
                check(r.as_bytes().as_ptr() == bytes.as_ptr() && r.as_bytes().len() == len, "borrowed numeric is elsewhere");
                check(off % 2 == 0, "misaligned numeric");
                reach("borrowed");
            }
            Err(_) => {
                check(!ok || off % 2 == 1, "valid bytes refused");
                reach("refused");
            }
        }
        return;
    }
    match NumericBuf::deserialize(Raw(bytes, how)) {
        Ok(r) => {
            check(ok, "invalid bytes accepted");
            let s = r.as_bytes();
            check(s.len() == len, "deserialized bytes differ");
            for i in 0..ws.len() {
                check(unsafe { (s.as_ptr().add(2 * i) as *const u16).read_unaligned() } == ws[i], "deserialized bytes differ");
            }
            reach("owned");
        }
        Err(_) => {
            check(!ok, "valid bytes refused");
            reach("refused");
        }
    }
}
/// text is read as parsing reads it
#[no_mangle]
pub extern "C" fn check_serde_text() {
    let n = choose(0, 3);
    let mut s = vec![];
    for _ in 0..n {
        s.push(any(0, 127) as u8);
    }
    let t = unsafe { String::from_utf8_unchecked(s) };
    let p = t.parse::<NumericBuf>();
    let v = Out::Str(t);
    match (NumericBuf::deserialize(De { human: true, how: choose(0, 2), v: &v }), p) {
        (Ok(a), Ok(b)) => {
            check(a.as_bytes().len() == b.as_bytes().len() && a.as_bytes() == b.as_bytes(), "text deserializes differently than it parses");
            reach("text");
        }
        (Err(_), Err(_)) => reach("refused"),
        _ => fail("text deserializes although it does not parse, or the other way round"),
    }
}
