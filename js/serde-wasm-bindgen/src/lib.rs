//! Stand-in for serde-wasm-bindgen 0.6.5, building the values its serializer builds.
use serde::ser::{self, Serialize};
use wasm_bindgen::{Js, JsError, JsValue};

#[derive(Debug)]
pub struct Error(JsValue);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.0 .0 { Js::Error(m) => { f.write_str("Error: ")?; f.write_str(m) } Js::Str(m) => f.write_str(m), _ => f.write_str("[object]") }
    }
}
impl std::error::Error for Error {}
impl Error { pub fn new<T: std::fmt::Display>(m: T) -> Self { Error(JsError::new(&m.to_string()).into()) } }
impl ser::Error for Error { fn custom<T: std::fmt::Display>(m: T) -> Self { Error::new(m) } }
impl From<JsValue> for Error { fn from(v: JsValue) -> Self { Error(v) } }
impl From<Error> for JsValue { fn from(e: Error) -> Self { e.0 } }
type Result<T = JsValue> = std::result::Result<T, Error>;

pub fn to_value<T: Serialize + ?Sized>(value: &T) -> Result { value.serialize(&Serializer::new()) }

#[derive(Default)]
pub struct Serializer { null: bool, objects: bool, bigints: bool, arrays: bool }
impl Serializer {
    pub const fn new() -> Self { Self { null: false, objects: false, bigints: false, arrays: false } }
    pub const fn json_compatible() -> Self { Self { null: true, objects: true, bigints: false, arrays: true } }
    pub const fn serialize_missing_as_null(mut self, v: bool) -> Self { self.null = v; self }
    pub const fn serialize_maps_as_objects(mut self, v: bool) -> Self { self.objects = v; self }
    pub const fn serialize_large_number_types_as_bigints(mut self, v: bool) -> Self { self.bigints = v; self }
    pub const fn serialize_bytes_as_arrays(mut self, v: bool) -> Self { self.arrays = v; self }
}
/// obj[key] = value
fn put(o: &mut Vec<(String, JsValue)>, key: String, value: JsValue) {
    for e in o.iter_mut() { if e.0 == key { e.1 = value; return; } }
    o.push((key, value));
}
fn variant(name: &str, inner: JsValue) -> JsValue { JsValue(Js::Object(vec![(name.to_owned(), inner)])) }

pub struct Arr<'s> { s: &'s Serializer, v: Vec<JsValue>, variant: Option<&'static str> }
impl Arr<'_> {
    fn add<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { let x = v.serialize(self.s)?; self.v.push(x); Ok(()) }
    fn done(self) -> Result { let a = JsValue(Js::Array(self.v)); Ok(match self.variant { Some(n) => variant(n, a), None => a }) }
}
macro_rules! arr { ($($t:ident $f:ident),*) => { $(impl ser::$t for Arr<'_> {
    type Ok = JsValue; type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { self.add(v) }
    fn end(self) -> Result { self.done() }
})* } }
arr!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

pub struct Obj<'s> { s: &'s Serializer, o: Vec<(String, JsValue)>, variant: Option<&'static str> }
impl Obj<'_> {
    fn add<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> { let x = v.serialize(self.s)?; put(&mut self.o, k.to_owned(), x); Ok(()) }
    fn done(self) -> Result { let a = JsValue(Js::Object(self.o)); Ok(match self.variant { Some(n) => variant(n, a), None => a }) }
}
macro_rules! obj { ($($t:ident),*) => { $(impl ser::$t for Obj<'_> {
    type Ok = JsValue; type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> { self.add(k, v) }
    fn end(self) -> Result { self.done() }
})* } }
obj!(SerializeStruct, SerializeStructVariant);

pub struct MapS<'s> { s: &'s Serializer, m: Vec<(JsValue, JsValue)>, key: Option<JsValue> }
/// SameValueZero, on what can be a key here.
fn same(a: &JsValue, b: &JsValue) -> bool {
    match (&a.0, &b.0) {
        (Js::Str(a), Js::Str(b)) => a == b,
        (Js::Number(a), Js::Number(b)) => a == b || a.is_nan() && b.is_nan(),
        (Js::BigInt(a), Js::BigInt(b)) => a == b,
        (Js::Bool(a), Js::Bool(b)) => a == b,
        (Js::Null, Js::Null) | (Js::Undefined, Js::Undefined) => true,
        _ => false,
    }
}
impl ser::SerializeMap for MapS<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<()> { self.key = Some(k.serialize(self.s)?); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        let k = self.key.take().unwrap();
        let v = v.serialize(self.s)?;
        if self.s.objects && !k.is_string() { return Err(Error::new("Map key is not a string and cannot be an object key")); }
        // __proto__ is no ordinary property of an object
        for e in self.m.iter_mut() { if same(&e.0, &k) { e.1 = v; return Ok(()); } }
        self.m.push((k, v));
        Ok(())
    }
    fn end(self) -> Result {
        if !self.s.objects { return Ok(JsValue(Js::Map(self.m))); }
        let mut o = Vec::with_capacity(self.m.len());
        for (k, v) in self.m { if let Js::Str(k) = k.0 { o.push((k, v)); } }
        Ok(JsValue(Js::Object(o)))
    }
}
macro_rules! into { ($($f:ident($t:ty)),*) => { $(fn $f(self, v: $t) -> Result { Ok(v.into()) })* } }
impl<'s> ser::Serializer for &'s Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Arr<'s>;
    type SerializeTuple = Arr<'s>;
    type SerializeTupleStruct = Arr<'s>;
    type SerializeTupleVariant = Arr<'s>;
    type SerializeMap = MapS<'s>;
    type SerializeStruct = Obj<'s>;
    type SerializeStructVariant = Obj<'s>;
    into!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_f32(f32), serialize_f64(f64), serialize_str(&str));
    fn serialize_i64(self, v: i64) -> Result {
        if self.bigints { return Ok(v.into()); }
        if (-9007199254740991..=9007199254740991).contains(&v) { Ok((v as f64).into()) } else { Err(Error::new(format_args!("{} can't be represented as a JavaScript number", v))) }
    }
    fn serialize_u64(self, v: u64) -> Result {
        if self.bigints { return Ok(v.into()); }
        if v <= 9007199254740991 { Ok((v as f64).into()) } else { Err(Error::new(format_args!("{} can't be represented as a JavaScript number", v))) }
    }
    fn serialize_i128(self, v: i128) -> Result { Ok(v.into()) }
    fn serialize_u128(self, v: u128) -> Result { Ok((v as i128).into()) }
    fn serialize_char(self, v: char) -> Result { Ok(v.to_string().into()) }
    fn serialize_bytes(self, v: &[u8]) -> Result { Ok(JsValue(Js::Array(v.iter().map(|b| (*b).into()).collect()))) }
    fn serialize_none(self) -> Result { self.serialize_unit() }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result { v.serialize(self) }
    fn serialize_unit(self) -> Result { Ok(if self.null { JsValue::NULL } else { JsValue::UNDEFINED }) }
    fn serialize_unit_struct(self, _: &'static str) -> Result { self.serialize_unit() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result { Ok(JsValue::from_str(v)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result { Ok(variant(n, v.serialize(self)?)) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Arr<'s>> { Ok(Arr { s: self, v: Vec::new(), variant: None }) }
    fn serialize_tuple(self, _: usize) -> Result<Arr<'s>> { Ok(Arr { s: self, v: Vec::new(), variant: None }) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Arr<'s>> { Ok(Arr { s: self, v: Vec::new(), variant: None }) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Arr<'s>> { Ok(Arr { s: self, v: Vec::new(), variant: Some(n) }) }
    fn serialize_map(self, _: Option<usize>) -> Result<MapS<'s>> { Ok(MapS { s: self, m: Vec::new(), key: None }) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Obj<'s>> { Ok(Obj { s: self, o: Vec::new(), variant: None }) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Obj<'s>> { Ok(Obj { s: self, o: Vec::new(), variant: Some(n) }) }
}
