//! A recording serde format: containers are serialized to a tape while other clients act on them,
//! and rebuilt from tapes, with injected errors on either side.

use serde::de::{self, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use simrt::host;

use crate::vals::{Cb, K, V, callback};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TapeErr {
    Injected,
    Other,
}
impl std::fmt::Display for TapeErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for TapeErr {}
impl ser::Error for TapeErr {
    fn custom<T: std::fmt::Display>(_: T) -> TapeErr {
        TapeErr::Other
    }
}
impl de::Error for TapeErr {
    fn custom<T: std::fmt::Display>(_: T) -> TapeErr {
        TapeErr::Other
    }
}

impl Serialize for K {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        callback(Cb::Closure);
        self.touch();
        s.serialize_u64(u64::from(self.inst) << 32 | u64::from(self.id))
    }
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        callback(Cb::Closure);
        s.serialize_u64(u64::from(self.read()))
    }
}
impl<'d> Deserialize<'d> for K {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<K, D::Error> {
        let x = u64::deserialize(d)?;
        callback(Cb::Closure);
        Ok(K::new(x as u32))
    }
}
impl<'d> Deserialize<'d> for V {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<V, D::Error> {
        let x = u64::deserialize(d)?;
        callback(Cb::Closure);
        Ok(V::new(x as u32))
    }
}

macro_rules! refuse {
    ($($f:ident($($t:ty),*);)*) => {
        $(fn $f(self $(, _: $t)*) -> Result<Self::Ok, TapeErr> { Err(TapeErr::Other) })*
    };
}
macro_rules! refuse_rest {
    () => {
        refuse! {
            serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32);
            serialize_i64(i64); serialize_u8(u8); serialize_u16(u16); serialize_u32(u32);
            serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str);
            serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
            serialize_unit_variant(&'static str, u32, &'static str);
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, TapeErr> {
            Err(TapeErr::Other)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: &T,
        ) -> Result<Self::Ok, TapeErr> {
            Err(TapeErr::Other)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<Self::Ok, TapeErr> {
            Err(TapeErr::Other)
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, TapeErr> {
            Err(TapeErr::Other)
        }
        fn serialize_tuple_struct(
            self,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeTupleStruct, TapeErr> {
            Err(TapeErr::Other)
        }
        fn serialize_tuple_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeTupleVariant, TapeErr> {
            Err(TapeErr::Other)
        }
        fn serialize_struct(
            self,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeStruct, TapeErr> {
            Err(TapeErr::Other)
        }
        fn serialize_struct_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeStructVariant, TapeErr> {
            Err(TapeErr::Other)
        }
    };
}

/// A key or a value.
struct Scalar;
impl Serializer for Scalar {
    type Ok = u64;
    type Error = TapeErr;
    type SerializeSeq = Impossible<u64, TapeErr>;
    type SerializeTuple = Impossible<u64, TapeErr>;
    type SerializeTupleStruct = Impossible<u64, TapeErr>;
    type SerializeTupleVariant = Impossible<u64, TapeErr>;
    type SerializeMap = Impossible<u64, TapeErr>;
    type SerializeStruct = Impossible<u64, TapeErr>;
    type SerializeStructVariant = Impossible<u64, TapeErr>;
    fn serialize_u64(self, x: u64) -> Result<u64, TapeErr> {
        Ok(x)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, TapeErr> {
        Err(TapeErr::Other)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, TapeErr> {
        Err(TapeErr::Other)
    }
    refuse_rest!();
}

/// Where errors are injected.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum At {
    Nowhere,
    Begin,
    /// Counts keys and values.
    Token(u32),
    End,
}

/// Key, value (0 in a set).
#[derive(Default)]
pub struct Items(pub Vec<(u32, u32)>);
impl Drop for Items {
    fn drop(&mut self) {
        host(|| drop(std::mem::take(&mut self.0)));
    }
}

/// The recorded form.
pub struct Tape<F: FnMut(u32, u32, u32)> {
    pub hint: Option<usize>,
    pub map: bool,
    pub items: Items,
    pub fail: At,
    pub failed: bool,
    pub begun: u32,
    pub ended: bool,
    tokens: u32,
    key: Option<u64>,
    /// Called with key, key instance, value.
    on_item: F,
}

impl<F: FnMut(u32, u32, u32)> Tape<F> {
    pub fn new(fail: At, on_item: F) -> Tape<F> {
        Tape {
            hint: None,
            map: false,
            items: Items::default(),
            fail,
            failed: false,
            begun: 0,
            ended: false,
            tokens: 0,
            key: None,
            on_item,
        }
    }
    fn begin(&mut self, map: bool, hint: Option<usize>) -> Result<(), TapeErr> {
        self.begun += 1;
        self.map = map;
        self.hint = hint;
        if self.fail == At::Begin {
            self.failed = true;
            return Err(TapeErr::Injected);
        }
        Ok(())
    }
    fn token(&mut self) -> Result<(), TapeErr> {
        if self.failed || self.ended {
            // The contract of serde: nothing after an error or the end.
            simrt::fail_owned("serde", "an element is serialized after an error or the end".into());
        }
        self.tokens += 1;
        simrt::point();
        if self.fail == At::Token(self.tokens) {
            self.failed = true;
            return Err(TapeErr::Injected);
        }
        Ok(())
    }
    fn end_it(&mut self) -> Result<(), TapeErr> {
        if self.failed {
            simrt::fail_owned("serde", "serialization goes on after an error".into());
        }
        if self.fail == At::End {
            self.failed = true;
            return Err(TapeErr::Injected);
        }
        self.ended = true;
        Ok(())
    }
    fn item(&mut self, k: u64, v: u32) {
        host(|| self.items.0.push((k as u32, v)));
        (self.on_item)(k as u32, (k >> 32) as u32, v);
    }
}

impl<F: FnMut(u32, u32, u32)> Serializer for &mut Tape<F> {
    type Ok = ();
    type Error = TapeErr;
    type SerializeSeq = Self;
    type SerializeTuple = Impossible<(), TapeErr>;
    type SerializeTupleStruct = Impossible<(), TapeErr>;
    type SerializeTupleVariant = Impossible<(), TapeErr>;
    type SerializeMap = Self;
    type SerializeStruct = Impossible<(), TapeErr>;
    type SerializeStructVariant = Impossible<(), TapeErr>;
    fn serialize_u64(self, _: u64) -> Result<(), TapeErr> {
        Err(TapeErr::Other)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, TapeErr> {
        self.begin(false, n)?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, TapeErr> {
        self.begin(true, n)?;
        Ok(self)
    }
    refuse_rest!();
}
impl<F: FnMut(u32, u32, u32)> ser::SerializeMap for &mut Tape<F> {
    type Ok = ();
    type Error = TapeErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), TapeErr> {
        self.token()?;
        let x = k.serialize(Scalar)?;
        if self.key.replace(x).is_some() {
            simrt::fail_owned("serde", "a key without a value".into());
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), TapeErr> {
        self.token()?;
        let x = v.serialize(Scalar)?;
        match self.key.take() {
            Some(k) => self.item(k, x as u32),
            None => simrt::fail_owned("serde", "a value without a key".into()),
        }
        Ok(())
    }
    fn end(self) -> Result<(), TapeErr> {
        self.end_it()
    }
}
impl<F: FnMut(u32, u32, u32)> ser::SerializeSeq for &mut Tape<F> {
    type Ok = ();
    type Error = TapeErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), TapeErr> {
        self.token()?;
        let x = k.serialize(Scalar)?;
        self.item(x, 0);
        Ok(())
    }
    fn end(self) -> Result<(), TapeErr> {
        self.end_it()
    }
}

// ---------------------------------------------------------------------------------------------

/// Reads a tape back.
pub struct Reader<'t> {
    pub items: &'t [(u32, u32)],
    pub hint: Option<usize>,
    pub fail: At,
    pos: usize,
    tokens: u32,
    pub failed: bool,
}
impl<'t> Reader<'t> {
    pub fn new(items: &'t [(u32, u32)], hint: Option<usize>, fail: At) -> Reader<'t> {
        Reader {
            items,
            hint,
            fail,
            pos: 0,
            tokens: 0,
            failed: false,
        }
    }
    fn token(&mut self) -> Result<(), TapeErr> {
        if self.failed {
            simrt::fail_owned("serde", "input is read after an error".into());
        }
        self.tokens += 1;
        let end = self.pos == self.items.len();
        if self.fail == At::Token(self.tokens) || (end && self.fail == At::End) {
            self.failed = true;
            return Err(TapeErr::Injected);
        }
        Ok(())
    }
}
macro_rules! direct {
    ($($f:ident($($a:ident: $t:ty),*);)*) => {
        $(fn $f<W: Visitor<'d>>(self $(, $a: $t)*, _: W) -> Result<W::Value, TapeErr> {
            Err(TapeErr::Other)
        })*
    };
}
impl<'d> Deserializer<'d> for &mut Reader<'_> {
    type Error = TapeErr;
    fn deserialize_map<W: Visitor<'d>>(self, w: W) -> Result<W::Value, TapeErr> {
        if self.fail == At::Begin {
            self.failed = true;
            return Err(TapeErr::Injected);
        }
        w.visit_map(self)
    }
    fn deserialize_seq<W: Visitor<'d>>(self, w: W) -> Result<W::Value, TapeErr> {
        if self.fail == At::Begin {
            self.failed = true;
            return Err(TapeErr::Injected);
        }
        w.visit_seq(self)
    }
    direct! {
        deserialize_any(); deserialize_bool(); deserialize_i8(); deserialize_i16(); deserialize_i32();
        deserialize_i64(); deserialize_u8(); deserialize_u16(); deserialize_u32(); deserialize_u64();
        deserialize_f32(); deserialize_f64(); deserialize_char(); deserialize_str(); deserialize_string();
        deserialize_bytes(); deserialize_byte_buf(); deserialize_option(); deserialize_unit();
        deserialize_unit_struct(_n: &'static str); deserialize_newtype_struct(_n: &'static str);
        deserialize_tuple(_n: usize); deserialize_tuple_struct(_n: &'static str, _l: usize);
        deserialize_struct(_n: &'static str, _f: &'static [&'static str]);
        deserialize_enum(_n: &'static str, _f: &'static [&'static str]);
        deserialize_identifier(); deserialize_ignored_any();
    }
}
fn scalar<'d, T: DeserializeSeed<'d>>(s: T, x: u64) -> Result<T::Value, TapeErr> {
    s.deserialize(IntoDeserializer::<TapeErr>::into_deserializer(x))
}
impl<'d> MapAccess<'d> for &mut Reader<'_> {
    type Error = TapeErr;
    fn next_key_seed<T: DeserializeSeed<'d>>(&mut self, s: T) -> Result<Option<T::Value>, TapeErr> {
        self.token()?;
        match self.items.get(self.pos) {
            Some(x) => scalar(s, u64::from(x.0)).map(Some),
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'d>>(&mut self, s: T) -> Result<T::Value, TapeErr> {
        self.token()?;
        self.pos += 1;
        scalar(s, u64::from(self.items[self.pos - 1].1))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'d> SeqAccess<'d> for &mut Reader<'_> {
    type Error = TapeErr;
    fn next_element_seed<T: DeserializeSeed<'d>>(&mut self, s: T) -> Result<Option<T::Value>, TapeErr> {
        self.token()?;
        self.pos += 1;
        match self.items.get(self.pos - 1) {
            Some(x) => scalar(s, u64::from(x.0)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
