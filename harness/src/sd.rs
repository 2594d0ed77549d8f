//! Recording serde Serializer / Deserializer.
use core::fmt::{self, Display};
use serde::{de, ser};

#[derive(Debug)]
pub struct Error;
impl Display for Error { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
#[cfg(feature = "std")]
impl std::error::Error for Error {}
#[cfg(not(feature = "std"))]
impl ser::StdError for Error {}
impl ser::Error for Error { fn custom<T: Display>(_: T) -> Self { Error } }
impl de::Error for Error {
    fn custom<T: Display>(_: T) -> Self { Error }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Error }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Error }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Error }
}

pub struct Ser { pub human: bool }
type Imp = ser::Impossible<(), Error>;
macro_rules! no { ($($f:ident: $t:ty),*) => { $( fn $f(self, _: $t) -> Result<(), Error> { Err(Error) } )* } }
impl ser::Serializer for Ser {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn is_human_readable(&self) -> bool { self.human }
    fn collect_str<T: ?Sized + Display>(self, v: &T) -> Result<(), Error> {
        let mut s = crate::Sink;
        let mut f = fmt::FormattingOptions::new().create_formatter(&mut s);
        Display::fmt(v, &mut f).map_err(|_| Error)
    }
    fn serialize_str(self, v: &str) -> Result<(), Error> {
        if unsafe { crate::probe_emit(v.as_ptr(), v.len()) } { Ok(()) } else { Err(Error) }
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> { unsafe { crate::probe_ser_bytes(v.as_ptr(), v.len()) }; Ok(()) }
    no!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
        serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32,
        serialize_f64: f64, serialize_char: char, serialize_unit_struct: &'static str);
    fn serialize_none(self) -> Result<(), Error> { Err(Error) }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<(), Error> { Err(Error) }
    fn serialize_unit(self) -> Result<(), Error> { Err(Error) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Error> { Err(Error) }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> Result<(), Error> { Err(Error) }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> { Err(Error) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, Error> { Err(Error) }
    fn serialize_tuple(self, _: usize) -> Result<Imp, Error> { Err(Error) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, Error> { Err(Error) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, Error> { Err(Error) }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, Error> { Err(Error) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, Error> { Err(Error) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, Error> { Err(Error) }
}

/// Deserializer that, whatever the type asks for, delivers the given bytes as a string (kind 0, the caller
/// guarantees UTF-8) or as a byte string (kind 1), or the borrowed forms (kinds 2, 3), as serde formats may do.
pub struct De<'a> { pub human: bool, pub kind: u8, pub b: &'a [u8] }
macro_rules! fwd { ($($f:ident),*) => { $( fn $f<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.go(v) } )* } }
impl<'de> De<'de> {
    fn go<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.kind {
            0 => v.visit_str(unsafe { core::str::from_utf8_unchecked(self.b) }),
            1 => v.visit_bytes(self.b),
            2 => v.visit_borrowed_str(unsafe { core::str::from_utf8_unchecked(self.b) }),
            _ => v.visit_borrowed_bytes(self.b),
        }
    }
}
impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = Error;
    fn is_human_readable(&self) -> bool { self.human }
    fwd!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
         deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64,
         deserialize_char, deserialize_str, deserialize_string, deserialize_bytes, deserialize_byte_buf,
         deserialize_option, deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier,
         deserialize_ignored_any);
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { self.go(v) }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { self.go(v) }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> { self.go(v) }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Error> { self.go(v) }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> { self.go(v) }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> { self.go(v) }
}
