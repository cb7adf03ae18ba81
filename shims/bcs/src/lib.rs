//! Binary canonical serialization (serializer only).
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
pub fn to_bytes<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, Error> {
    let mut s = S(vec![]);
    v.serialize(&mut s)?;
    Ok(s.0)
}
struct S(Vec<u8>);
impl S {
    fn leb(&mut self, mut n: u32) {
        while n >= 0x80 {
            self.0.push(n as u8 | 0x80);
            n >>= 7;
        }
        self.0.push(n as u8);
    }
    fn len(&mut self, n: usize) -> Result<(), Error> {
        if n > i32::MAX as usize {
            return Err(Error("too long".into()));
        }
        self.leb(n as u32);
        Ok(())
    }
}
macro_rules! num { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Error> { self.0.extend_from_slice(&v.to_le_bytes()); Ok(()) })* } }
type R = Result<(), Error>;
impl<'a> ser::Serializer for &'a mut S {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = M<'a>;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128);
    fn serialize_bool(self, v: bool) -> R {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_f32(self, _: f32) -> R {
        Err(Error("float".into()))
    }
    fn serialize_f64(self, _: f64) -> R {
        Err(Error("float".into()))
    }
    fn serialize_char(self, _: char) -> R {
        Err(Error("char".into()))
    }
    fn serialize_str(self, v: &str) -> R {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.len(v.len())?;
        self.0.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> R {
        self.0.push(0);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R {
        self.leb(i);
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R {
        self.leb(i);
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Error> {
        self.len(n.ok_or(Error("unknown length".into()))?)?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, Error> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Error> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, Error> {
        self.leb(i);
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<M<'a>, Error> {
        Ok(M { s: self, e: vec![] })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Error> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, Error> {
        self.leb(i);
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
macro_rules! elem { ($($t:ident $f:ident),*) => { $(impl<'a> ser::$t for &'a mut S {
    type Ok = (); type Error = Error;
    fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
    fn end(self) -> R { Ok(()) }
})* } }
elem!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! field { ($($t:ident),*) => { $(impl<'a> ser::$t for &'a mut S {
    type Ok = (); type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> R { v.serialize(&mut **self) }
    fn end(self) -> R { Ok(()) }
})* } }
field!(SerializeStruct, SerializeStructVariant);
pub struct M<'a> {
    s: &'a mut S,
    e: Vec<(Vec<u8>, Vec<u8>)>,
}
impl<'a> ser::SerializeMap for M<'a> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> R {
        self.e.push((to_bytes(k)?, vec![]));
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> R {
        self.e.last_mut().unwrap().1 = to_bytes(v)?;
        Ok(())
    }
    fn end(mut self) -> R {
        self.e.sort();
        self.s.len(self.e.len())?;
        for (k, v) in self.e {
            self.s.0.extend(k);
            self.s.0.extend(v);
        }
        Ok(())
    }
}
