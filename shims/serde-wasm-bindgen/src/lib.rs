//! The rules of serde-wasm-bindgen 0.6: structs are objects, maps are Maps, None is undefined,
//! 64-bit integers are numbers within the safe range, and integers are read from safe integers only.
use serde::de::{self, IntoDeserializer};
use serde::ser::{self, Serialize};
use std::fmt;
use wasm_bindgen::JsValue;

pub type Result<T = JsValue> = std::result::Result<T, Error>;

#[derive(Debug, Clone)]
pub struct Error(JsValue);

impl Error {
    pub fn new<T: fmt::Display>(msg: T) -> Self {
        Error(JsValue::String(msg.to_string()))
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.0 {
            JsValue::String(s) => write!(f, "Error: {s}"),
            v => write!(f, "{v:?}"),
        }
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        Error::new(msg)
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        Error::new(msg)
    }
}
impl From<JsValue> for Error {
    fn from(e: JsValue) -> Error {
        Error(e)
    }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        e.0
    }
}

pub fn from_value<T: de::DeserializeOwned>(value: JsValue) -> Result<T> {
    T::deserialize(Deserializer { value })
}

pub fn to_value<T: Serialize + ?Sized>(value: &T) -> Result<JsValue> {
    value.serialize(&Serializer::new())
}

// ---------------------------------------------------------------- reading

pub struct Deserializer {
    value: JsValue,
}

impl From<JsValue> for Deserializer {
    fn from(value: JsValue) -> Self {
        Self { value }
    }
}

impl IntoDeserializer<'_, Error> for Deserializer {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

impl Deserializer {
    fn nullish(&self) -> bool {
        self.value.is_null_or_undefined()
    }
    fn wrong<T>(&self, want: &dyn de::Expected) -> Result<T> {
        let text;
        let got = match &self.value {
            JsValue::Undefined | JsValue::Null => de::Unexpected::Unit,
            JsValue::Bool(v) => de::Unexpected::Bool(*v),
            JsValue::Number(v) => de::Unexpected::Float(*v),
            JsValue::String(s) => de::Unexpected::Str(s),
            v => {
                text = format!("{v:?}");
                de::Unexpected::Other(&text)
            }
        };
        Err(de::Error::invalid_type(got, want))
    }
    fn signed<'de, V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.value.safe_integer() {
            Some(i) => v.visit_i64(i),
            None => self.wrong(&v),
        }
    }
    fn unsigned<'de, V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.value.safe_integer() {
            Some(i) if i >= 0 => v.visit_u64(i as u64),
            _ => self.wrong(&v),
        }
    }
}

/// The fields an object is asked for, in the order they are asked for.
struct Fields {
    obj: Vec<(String, JsValue)>,
    names: std::slice::Iter<'static, &'static str>,
    next: Option<JsValue>,
}

impl<'de> de::MapAccess<'de> for Fields {
    type Error = Error;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>> {
        for name in &mut self.names {
            if let Some((_, v)) = self.obj.iter().find(|(k, _)| k == name) {
                self.next = Some(v.clone());
                let key: de::value::StrDeserializer<Error> = (*name).into_deserializer();
                return seed.deserialize(key).map(Some);
            }
        }
        Ok(None)
    }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value> {
        seed.deserialize(Deserializer { value: self.next.take().expect("a key first") })
    }
}

struct Enum {
    tag: Deserializer,
    payload: Deserializer,
}

impl<'de> de::EnumAccess<'de> for Enum {
    type Error = Error;
    type Variant = Deserializer;
    fn variant_seed<V: de::DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Deserializer)> {
        Ok((seed.deserialize(self.tag)?, self.payload))
    }
}

impl<'de> de::VariantAccess<'de> for Deserializer {
    type Error = Error;
    fn unit_variant(self) -> Result<()> {
        de::Deserialize::deserialize(self)
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: de::Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value> {
        de::Deserializer::deserialize_tuple(self, len, v)
    }
    fn struct_variant<V: de::Visitor<'de>>(self, fields: &'static [&'static str], v: V) -> Result<V::Value> {
        de::Deserializer::deserialize_struct(self, "", fields, v)
    }
}

fn seq<'de, V: de::Visitor<'de>>(items: Vec<JsValue>, v: V) -> Result<V::Value> {
    v.visit_seq(de::value::SeqDeserializer::new(items.into_iter().map(Deserializer::from)))
}

impl<'de> de::Deserializer<'de> for Deserializer {
    type Error = Error;

    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.value {
            JsValue::Undefined | JsValue::Null => v.visit_unit(),
            JsValue::Bool(b) => v.visit_bool(b),
            JsValue::BigInt(i) => match (i64::try_from(i), u64::try_from(i)) {
                (Ok(i), _) => v.visit_i64(i),
                (_, Ok(u)) => v.visit_u64(u),
                _ => Err(Error::new("Couldn't deserialize i64 or u64 from a BigInt outside i64::MIN..u64::MAX bounds")),
            },
            JsValue::Number(x) => match self.value.safe_integer() {
                Some(i) => v.visit_i64(i),
                None => v.visit_f64(x),
            },
            JsValue::String(s) => v.visit_string(s),
            JsValue::Array(a) => seq(a, v),
            JsValue::Object(_) | JsValue::Map(_) => self.deserialize_map(v),
        }
    }
    fn deserialize_unit<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        if self.nullish() {
            v.visit_unit()
        } else {
            self.wrong(&v)
        }
    }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> {
        self.deserialize_unit(v)
    }
    fn deserialize_bool<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.value.as_bool() {
            Some(b) => v.visit_bool(b),
            None => self.wrong(&v),
        }
    }
    fn deserialize_f32<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.deserialize_f64(v)
    }
    fn deserialize_f64<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.value.as_f64() {
            Some(x) => v.visit_f64(x),
            None => self.wrong(&v),
        }
    }
    fn deserialize_identifier<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.deserialize_string(v)
    }
    fn deserialize_str<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.deserialize_string(v)
    }
    fn deserialize_string<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.value.as_string() {
            Some(s) => v.visit_string(s),
            None => self.wrong(&v),
        }
    }
    fn deserialize_i8<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.signed(v)
    }
    fn deserialize_i16<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.signed(v)
    }
    fn deserialize_i32<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.signed(v)
    }
    fn deserialize_u8<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.unsigned(v)
    }
    fn deserialize_u16<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.unsigned(v)
    }
    fn deserialize_u32<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.unsigned(v)
    }
    fn deserialize_i64<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.value {
            JsValue::BigInt(i) => match i64::try_from(i) {
                Ok(i) => v.visit_i64(i),
                Err(_) => Err(Error::new("Couldn't deserialize i64 from a BigInt outside i64::MIN..i64::MAX bounds")),
            },
            _ => self.signed(v),
        }
    }
    fn deserialize_u64<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.value {
            JsValue::BigInt(i) => match u64::try_from(i) {
                Ok(i) => v.visit_u64(i),
                Err(_) => Err(Error::new("Couldn't deserialize u64 from a BigInt outside u64::MIN..u64::MAX bounds")),
            },
            _ => self.unsigned(v),
        }
    }
    fn deserialize_char<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        let c = self.value.as_string().and_then(|s| {
            let mut it = s.chars();
            it.next().filter(|_| it.next().is_none())
        });
        match c {
            Some(c) => v.visit_char(c),
            None => self.wrong(&v),
        }
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        if self.nullish() {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.value {
            JsValue::Array(a) => seq(a, v),
            JsValue::String(s) => seq(s.chars().map(|c| JsValue::String(c.to_string())).collect(), v),
            JsValue::Map(m) => seq(m.into_iter().map(|(a, b)| JsValue::Array(vec![a, b])).collect(), v),
            _ => self.wrong(&v),
        }
    }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value> {
        self.deserialize_seq(v)
    }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value> {
        self.deserialize_seq(v)
    }
    fn deserialize_map<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        let pair = |p: JsValue| {
            let mut it = match p {
                JsValue::Array(a) => a.into_iter(),
                _ => vec![].into_iter(),
            };
            let mut next = || Deserializer::from(it.next().unwrap_or(JsValue::Undefined));
            (next(), next())
        };
        match self.value {
            JsValue::Object(e) => v.visit_map(de::value::MapDeserializer::new(e.into_iter().map(|(k, x)| (Deserializer::from(JsValue::String(k)), Deserializer::from(x))))),
            JsValue::Map(m) => v.visit_map(de::value::MapDeserializer::new(m.into_iter().map(|(k, x)| (Deserializer::from(k), Deserializer::from(x))))),
            JsValue::Array(a) => v.visit_map(de::value::MapDeserializer::new(a.into_iter().map(pair))),
            _ => self.wrong(&v),
        }
    }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], v: V) -> Result<V::Value> {
        let obj = match self.value {
            JsValue::Object(e) => e,
            JsValue::Array(_) | JsValue::Map(_) => Vec::new(),
            _ => return self.wrong(&v),
        };
        v.visit_map(Fields { obj, names: fields.iter(), next: None })
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value> {
        let access = match self.value {
            JsValue::String(_) => Enum { tag: self, payload: JsValue::Undefined.into() },
            JsValue::Object(mut e) => {
                if e.len() != 1 {
                    return Err(de::Error::invalid_length(e.len(), &"1"));
                }
                let (k, x) = e.remove(0);
                Enum { tag: JsValue::String(k).into(), payload: x.into() }
            }
            _ => return self.wrong(&v),
        };
        v.visit_enum(access)
    }
    fn deserialize_ignored_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        v.visit_unit()
    }
    fn deserialize_bytes<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        self.deserialize_byte_buf(v)
    }
    fn deserialize_byte_buf<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self.value {
            JsValue::Array(a) => seq(a, v),
            _ => self.wrong(&v),
        }
    }
}

// ---------------------------------------------------------------- writing

#[derive(Default, Clone)]
pub struct Serializer {
    missing_as_null: bool,
    maps_as_objects: bool,
    bigints: bool,
}

impl Serializer {
    pub const fn new() -> Self {
        Self { missing_as_null: false, maps_as_objects: false, bigints: false }
    }
    pub const fn json_compatible() -> Self {
        Self { missing_as_null: true, maps_as_objects: true, bigints: false }
    }
    pub const fn serialize_missing_as_null(mut self, v: bool) -> Self {
        self.missing_as_null = v;
        self
    }
    pub const fn serialize_maps_as_objects(mut self, v: bool) -> Self {
        self.maps_as_objects = v;
        self
    }
    pub const fn serialize_large_number_types_as_bigints(mut self, v: bool) -> Self {
        self.bigints = v;
        self
    }
}

pub struct Items<'s> {
    s: &'s Serializer,
    variant: Option<&'static str>,
    items: Vec<JsValue>,
}

impl Items<'_> {
    fn push<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        self.items.push(v.serialize(self.s)?);
        Ok(())
    }
    fn done(self) -> Result {
        Ok(tagged(self.variant, JsValue::Array(self.items)))
    }
}

fn tagged(variant: Option<&'static str>, v: JsValue) -> JsValue {
    match variant {
        Some(t) => JsValue::Object(vec![(t.to_string(), v)]),
        None => v,
    }
}

macro_rules! items {
    ($($tr:ident $f:ident;)*) => { $(
        impl ser::$tr for Items<'_> {
            type Ok = JsValue;
            type Error = Error;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
                self.push(v)
            }
            fn end(self) -> Result {
                self.done()
            }
        }
    )* };
}
items! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }

pub struct Entries<'s> {
    s: &'s Serializer,
    key: Option<JsValue>,
    entries: Vec<(JsValue, JsValue)>,
}

impl ser::SerializeMap for Entries<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, key: &T) -> Result<()> {
        self.key = Some(key.serialize(self.s)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {
        let k = self.key.take().expect("a key first");
        let v = value.serialize(self.s)?;
        match self.entries.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 = v,
            None => self.entries.push((k, v)),
        }
        Ok(())
    }
    fn end(self) -> Result {
        if !self.s.maps_as_objects {
            return Ok(JsValue::Map(self.entries));
        }
        let mut out = Vec::new();
        for (k, v) in self.entries {
            match k {
                JsValue::String(k) => out.push((k, v)),
                _ => return Err(Error::new("Map key is not a string and cannot be an object key")),
            }
        }
        Ok(JsValue::Object(out))
    }
}

pub struct Object<'s> {
    s: &'s Serializer,
    variant: Option<&'static str>,
    entries: Vec<(String, JsValue)>,
}

macro_rules! object {
    ($($tr:ident)*) => { $(
        impl ser::$tr for Object<'_> {
            type Ok = JsValue;
            type Error = Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> Result<()> {
                let v = value.serialize(self.s)?;
                match self.entries.iter_mut().find(|e| e.0 == key) {
                    Some(e) => e.1 = v,
                    None => self.entries.push((key.to_string(), v)),
                }
                Ok(())
            }
            fn end(self) -> Result {
                Ok(tagged(self.variant, JsValue::Object(self.entries)))
            }
        }
    )* };
}
object!(SerializeStruct SerializeStructVariant);

macro_rules! plain {
    ($($name:ident($t:ty);)*) => { $(fn $name(self, v: $t) -> Result { Ok(v.into()) })* };
}

impl<'s> ser::Serializer for &'s Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Items<'s>;
    type SerializeTuple = Items<'s>;
    type SerializeTupleStruct = Items<'s>;
    type SerializeTupleVariant = Items<'s>;
    type SerializeMap = Entries<'s>;
    type SerializeStruct = Object<'s>;
    type SerializeStructVariant = Object<'s>;

    plain! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_u8(u8);
        serialize_u16(u16); serialize_u32(u32); serialize_f32(f32); serialize_f64(f64); serialize_str(&str);
    }
    fn serialize_i64(self, v: i64) -> Result {
        if self.bigints {
            return Ok(v.into());
        }
        if v.unsigned_abs() <= 9007199254740991 {
            return self.serialize_f64(v as f64);
        }
        Err(Error::new(format!("{v} can't be represented as a JavaScript number")))
    }
    fn serialize_u64(self, v: u64) -> Result {
        if self.bigints {
            return Ok(v.into());
        }
        if v <= 9007199254740991 {
            return self.serialize_f64(v as f64);
        }
        Err(Error::new(format!("{v} can't be represented as a JavaScript number")))
    }
    fn serialize_char(self, v: char) -> Result {
        Ok(JsValue::String(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result {
        Ok(JsValue::Array(v.iter().map(|&b| JsValue::Number(b as f64)).collect()))
    }
    fn serialize_none(self) -> Result {
        self.serialize_unit()
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result {
        Ok(if self.missing_as_null { JsValue::Null } else { JsValue::Undefined })
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result {
        self.serialize_unit()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, variant: &'static str) -> Result {
        Ok(variant.into())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, variant: &'static str, v: &T) -> Result {
        Ok(tagged(Some(variant), v.serialize(self)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Items<'s>> {
        Ok(Items { s: self, variant: None, items: Vec::new() })
    }
    fn serialize_tuple(self, len: usize) -> Result<Items<'s>> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Items<'s>> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, variant: &'static str, _: usize) -> Result<Items<'s>> {
        Ok(Items { s: self, variant: Some(variant), items: Vec::new() })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Entries<'s>> {
        Ok(Entries { s: self, key: None, entries: Vec::new() })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Object<'s>> {
        Ok(Object { s: self, variant: None, entries: Vec::new() })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, variant: &'static str, _: usize) -> Result<Object<'s>> {
        Ok(Object { s: self, variant: Some(variant), entries: Vec::new() })
    }
}
