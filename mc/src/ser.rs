//! A compact binary serde format that is not self-describing: fields are identified by their order only, so a
//! value written and read with different ideas about the layout does not come back.
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::Display;

#[derive(Debug)]
pub struct E(pub String);
impl Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: Display>(m: T) -> Self {
        E(m.to_string())
    }
}
type Res<T> = Result<T, E>;

pub fn to_bytes<T: Serialize>(t: &T) -> Res<Vec<u8>> {
    let mut w = W(vec![]);
    t.serialize(&mut w)?;
    Ok(w.0)
}
pub fn from_bytes<'a, T: serde::Deserialize<'a>>(b: &'a [u8]) -> Res<T> {
    let mut r = Rd(b);
    let t = T::deserialize(&mut r)?;
    if r.0.is_empty() {
        Ok(t)
    } else {
        Err(E(format!("{} bytes left over", r.0.len())))
    }
}

pub struct W(Vec<u8>);
impl W {
    fn int(&mut self, x: u64) {
        // variable length
        let mut x = x;
        while x >= 128 {
            self.0.push(x as u8 | 128);
            x >>= 7;
        }
        self.0.push(x as u8);
    }
}
macro_rules! ints {
    ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Res<()> { self.int(v as u64); Ok(()) } )* };
}
impl ser::Serializer for &mut W {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    ints!(serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_i8 i8, serialize_i16 i16,
          serialize_i32 i32, serialize_i64 i64, serialize_bool bool, serialize_char char);
    fn serialize_u128(self, v: u128) -> Res<()> {
        self.int(v as u64);
        self.int((v >> 64) as u64);
        Ok(())
    }
    fn serialize_i128(self, v: i128) -> Res<()> {
        self.serialize_u128(v as u128)
    }
    fn serialize_f32(self, v: f32) -> Res<()> {
        self.int(v.to_bits() as u64);
        Ok(())
    }
    fn serialize_f64(self, v: f64) -> Res<()> {
        self.int(v.to_bits());
        Ok(())
    }
    fn serialize_str(self, v: &str) -> Res<()> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Res<()> {
        self.int(v.len() as u64);
        self.0.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> Res<()> {
        self.int(0);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Res<()> {
        self.int(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Res<()> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Res<()> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Res<()> {
        self.int(i as u64);
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Res<()> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Res<()> {
        self.int(i as u64);
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Res<Self> {
        self.int(n.ok_or(E("sequence of unknown length".into()))? as u64);
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Res<Self> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Res<Self> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Res<Self> {
        self.int(i as u64);
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Res<Self> {
        self.int(n.ok_or(E("map of unknown length".into()))? as u64);
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Res<Self> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Res<Self> {
        self.int(i as u64);
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
macro_rules! compound {
    ($($tr:ident $f:ident),*) => { $(
        impl ser::$tr for &mut W {
            type Ok = ();
            type Error = E;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> { v.serialize(&mut **self) }
            fn end(self) -> Res<()> { Ok(()) }
        } )* };
}
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field,
          SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($tr:ident),*) => { $(
        impl ser::$tr for &mut W {
            type Ok = ();
            type Error = E;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Res<()> { v.serialize(&mut **self) }
            fn end(self) -> Res<()> { Ok(()) }
        } )* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for &mut W {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Res<()> {
        Ok(())
    }
}

pub struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn int(&mut self) -> Res<u64> {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let (&b, rest) = self.0.split_first().ok_or(E("unexpected end".into()))?;
            self.0 = rest;
            if s > 63 {
                return Err(E("overlong number".into()));
            }
            r |= ((b & 127) as u64) << s;
            s += 7;
            if b < 128 {
                return Ok(r);
            }
        }
    }
    fn raw(&mut self) -> Res<&'a [u8]> {
        let n = self.int()? as usize;
        if n > self.0.len() {
            return Err(E("unexpected end".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
}
struct Acc<'r, 'a> {
    r: &'r mut Rd<'a>,
    left: usize,
}
impl<'r, 'a> de::SeqAccess<'a> for Acc<'r, 'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Res<Option<T::Value>> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.r).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
impl<'r, 'a> de::MapAccess<'a> for Acc<'r, 'a> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Res<Option<T::Value>> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.r).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Res<T::Value> {
        s.deserialize(&mut *self.r)
    }
}
impl<'r, 'a> de::EnumAccess<'a> for &'r mut Rd<'a> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'a>>(self, s: T) -> Res<(T::Value, Self)> {
        let i = self.int()? as u32;
        let v = s.deserialize(de::value::U32Deserializer::<E>::new(i))?;
        Ok((v, self))
    }
}
impl<'r, 'a> de::VariantAccess<'a> for &'r mut Rd<'a> {
    type Error = E;
    fn unit_variant(self) -> Res<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'a>>(self, s: T) -> Res<T::Value> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'a>>(self, n: usize, v: V) -> Res<V::Value> {
        v.visit_seq(Acc { r: self, left: n })
    }
    fn struct_variant<V: Visitor<'a>>(self, f: &'static [&'static str], v: V) -> Res<V::Value> {
        v.visit_seq(Acc { r: self, left: f.len() })
    }
}
macro_rules! rints {
    ($($f:ident $v:ident $t:ty),*) => { $( fn $f<V: Visitor<'a>>(self, v: V) -> Res<V::Value> { let x = self.int()?; v.$v(x as $t) } )* };
}
impl<'r, 'a> de::Deserializer<'a> for &'r mut Rd<'a> {
    type Error = E;
    rints!(deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32,
           deserialize_u64 visit_u64 u64, deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16,
           deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64);
    fn deserialize_u128<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        let x = self.int()? as u128 | (self.int()? as u128) << 64;
        v.visit_u128(x)
    }
    fn deserialize_i128<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        let x = self.int()? as u128 | (self.int()? as u128) << 64;
        v.visit_i128(x as i128)
    }
    fn deserialize_bool<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        let x = self.int()?;
        v.visit_bool(x != 0)
    }
    fn deserialize_char<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        let x = self.int()?;
        v.visit_char(char::from_u32(x as u32).ok_or(E("char".into()))?)
    }
    fn deserialize_f32<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        let x = self.int()?;
        v.visit_f32(f32::from_bits(x as u32))
    }
    fn deserialize_f64<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        let x = self.int()?;
        v.visit_f64(f64::from_bits(x))
    }
    fn deserialize_str<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        let x = self.raw()?;
        v.visit_str(std::str::from_utf8(x).map_err(|e| E(e.to_string()))?)
    }
    fn deserialize_string<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        let x = self.raw()?;
        v.visit_borrowed_bytes(x)
    }
    fn deserialize_byte_buf<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        if self.int()? == 0 {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> Res<V::Value> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> Res<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        let n = self.int()? as usize;
        v.visit_seq(Acc { r: self, left: n })
    }
    fn deserialize_tuple<V: Visitor<'a>>(self, n: usize, v: V) -> Res<V::Value> {
        v.visit_seq(Acc { r: self, left: n })
    }
    fn deserialize_tuple_struct<V: Visitor<'a>>(self, _: &'static str, n: usize, v: V) -> Res<V::Value> {
        v.visit_seq(Acc { r: self, left: n })
    }
    fn deserialize_map<V: Visitor<'a>>(self, v: V) -> Res<V::Value> {
        let n = self.int()? as usize;
        v.visit_map(Acc { r: self, left: n })
    }
    fn deserialize_struct<V: Visitor<'a>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Res<V::Value> {
        v.visit_seq(Acc { r: self, left: f.len() })
    }
    fn deserialize_enum<V: Visitor<'a>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Res<V::Value> {
        v.visit_enum(self)
    }
    fn deserialize_any<V: Visitor<'a>>(self, _: V) -> Res<V::Value> {
        Err(E("not self-describing".into()))
    }
    fn deserialize_identifier<V: Visitor<'a>>(self, _: V) -> Res<V::Value> {
        Err(E("not self-describing".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'a>>(self, _: V) -> Res<V::Value> {
        Err(E("not self-describing".into()))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
