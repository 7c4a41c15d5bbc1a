//! Stand-in for serde-wasm-bindgen over JSON values (a number that is not finite becomes null). As in the real one, a
//! Rust map becomes a JavaScript Map unless asked otherwise: an object with the single key MAP, whose properties a page
//! that spreads or reads it does not see. A missing value becomes null.
use serde::ser::{self, Serialize};
use serde_json::Value;
use wasm_bindgen::JsValue;

pub const MAP: &str = "[[Map]]";

#[derive(Debug, Clone)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl serde::de::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue::from_str(&e.0)
    }
}
pub type Result<T> = std::result::Result<T, Error>;

/// Maps read like objects.
fn plain(v: Value) -> Value {
    match v {
        Value::Object(mut o) => {
            if let (1, Some(Value::Object(m))) = (o.len(), o.get(MAP)) {
                o = m.clone();
            }
            Value::Object(o.into_iter().map(|(k, v)| (k, plain(v))).collect())
        }
        Value::Array(a) => Value::Array(a.into_iter().map(plain).collect()),
        v => v,
    }
}
pub fn from_value<T: serde::de::DeserializeOwned>(v: JsValue) -> Result<T> {
    serde_json::from_value(plain(v.0.unwrap_or(Value::Null))).map_err(|e| Error(e.to_string()))
}
pub fn to_value<T: Serialize + ?Sized>(v: &T) -> Result<JsValue> {
    v.serialize(&Serializer::new())
}

#[derive(Clone, Debug, Default)]
pub struct Serializer {
    objects: bool,
}
impl Serializer {
    pub const fn new() -> Self {
        Serializer { objects: false }
    }
    pub const fn json_compatible() -> Self {
        Serializer { objects: true }
    }
    pub const fn serialize_maps_as_objects(mut self, v: bool) -> Self {
        self.objects = v;
        self
    }
    pub const fn serialize_missing_as_null(self, _: bool) -> Self {
        self
    }
    pub const fn serialize_large_number_types_as_bigints(self, _: bool) -> Self {
        self
    }
    pub const fn serialize_bytes_as_arrays(self, _: bool) -> Self {
        self
    }
    fn of<T: Serialize + ?Sized>(&self, v: &T) -> Result<Value> {
        v.serialize(self).map(|v| v.0.unwrap_or(Value::Null))
    }
}

pub struct Seq<'a>(&'a Serializer, Vec<Value>, Option<&'static str>);
pub struct Map<'a> {
    s: &'a Serializer,
    m: serde_json::Map<String, Value>,
    key: String,
    is_map: bool,
    variant: Option<&'static str>,
}
fn named(variant: Option<&'static str>, v: Value) -> Result<JsValue> {
    Ok(JsValue(Some(match variant {
        None => v,
        Some(n) => serde_json::json!({ n: v }),
    })))
}
impl Seq<'_> {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.1.push(self.0.of(v)?);
        Ok(())
    }
}
impl Map<'_> {
    fn add<T: Serialize + ?Sized>(&mut self, k: &str, v: &T) -> Result<()> {
        self.m.insert(k.to_string(), self.s.of(v)?);
        Ok(())
    }
    fn done(self) -> Result<JsValue> {
        let o = Value::Object(self.m);
        named(self.variant, if self.is_map && !self.s.objects { serde_json::json!({ MAP: o }) } else { o })
    }
}
macro_rules! seq {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for Seq<'_> {
        type Ok = JsValue;
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
            self.add(v)
        }
        fn end(self) -> Result<JsValue> {
            named(self.2, Value::Array(self.1))
        }
    })* };
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! rec {
    ($($t:ident),*) => { $(impl ser::$t for Map<'_> {
        type Ok = JsValue;
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<()> {
            self.add(k, v)
        }
        fn end(self) -> Result<JsValue> {
            self.done()
        }
    })* };
}
rec!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Map<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<()> {
        self.key = match self.s.of(k)? {
            Value::String(s) => s,
            v => v.to_string(),
        };
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        let k = std::mem::take(&mut self.key);
        self.add(&k, v)
    }
    fn end(self) -> Result<JsValue> {
        self.done()
    }
}
macro_rules! json {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<JsValue> { Ok(JsValue(Some(Value::from(v)))) })* };
}
impl<'a> ser::Serializer for &'a Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Seq<'a>;
    type SerializeTuple = Seq<'a>;
    type SerializeTupleStruct = Seq<'a>;
    type SerializeTupleVariant = Seq<'a>;
    type SerializeMap = Map<'a>;
    type SerializeStruct = Map<'a>;
    type SerializeStructVariant = Map<'a>;
    json!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8,
          serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f64 f64, serialize_str &str, serialize_bytes &[u8]);
    fn serialize_f32(self, v: f32) -> Result<JsValue> {
        self.serialize_f64(v as f64)
    }
    fn serialize_char(self, v: char) -> Result<JsValue> {
        self.serialize_str(&v.to_string())
    }
    fn serialize_none(self) -> Result<JsValue> {
        Ok(JsValue::NULL)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<JsValue> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<JsValue> {
        Ok(JsValue::NULL)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<JsValue> {
        Ok(JsValue::NULL)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<JsValue> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<JsValue> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<JsValue> {
        named(Some(n), self.of(v)?)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq<'a>> {
        Ok(Seq(self, vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq<'a>> {
        Ok(Seq(self, vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq<'a>> {
        Ok(Seq(self, vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq<'a>> {
        Ok(Seq(self, vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Map<'a>> {
        Ok(Map { s: self, m: Default::default(), key: String::new(), is_map: true, variant: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Map<'a>> {
        Ok(Map { s: self, m: Default::default(), key: String::new(), is_map: false, variant: None })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Map<'a>> {
        Ok(Map { s: self, m: Default::default(), key: String::new(), is_map: false, variant: Some(n) })
    }
}
