//! Typed values: a type and a value of it, (de)serialized exactly as derived
//! code would do it.
use crate::fault;
use crate::gen::Gen;
use crate::reader::Val;
use serde::de::{
    self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess,
    VariantAccess, Visitor,
};
use serde::ser::{
    Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use std::collections::BTreeMap;
use std::fmt;

pub static NAMES: &[&str] =
    &["a", "b", "name", "value", "x_1", "k-2", "with space", "ключ", "type", "id", "true", "1", "null", "2e3"];
pub static VARIANTS: &[&str] =
    &["Alpha", "Beta", "True", "False", "kebab-case", "null", "1", "With space", "Ünï"];

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Ty {
    Bool,
    Int(u8),
    Uint(u8),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Opt(Box<Ty>),
    Unit,
    UnitStruct,
    Newtype(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Struct(Vec<(u8, Ty)>),
    /// key type, value type
    Map(Box<Ty>, Box<Ty>),
    Enum(Vec<(u8, Var)>),
    Untagged,
    Rich,
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Var {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<(u8, Ty)>),
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum TV {
    Bool(bool),
    I(i64),
    U(u64),
    /// 128-bit, in decimal
    I128(String),
    U128(String),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<TV>),
    Unit,
    Seq(Vec<TV>),
    Map(Vec<(TV, TV)>),
    /// position in the list of variants, content
    Var(usize, Vec<TV>),
    Un(Un),
    Rich(Box<Rich>),
}
/// flattened fields, tags inside and beside the content, defaults and renamed fields
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Rich {
    pub id: u32,
    #[serde(flatten)]
    pub kind: Kind,
    #[serde(rename = "long name", default, skip_serializing_if = "Option::is_none")]
    pub note: Option<String>,
    pub adj: Vec<Adj>,
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(tag = "type", rename_all = "snake_case")]
pub enum Kind {
    Empty,
    Text { body: String, size: Option<f64> },
    Nested(Inner),
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Inner {
    pub tags: Vec<String>,
    #[serde(flatten)]
    pub rest: BTreeMap<String, Option<String>>,
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(tag = "t", content = "c")]
pub enum Adj {
    A,
    B(String, i64),
    C { x: bool, y: char },
    D(Vec<Option<i64>>),
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(untagged)]
pub enum Un {
    Flag(bool),
    Int(i64),
    Text(String),
    List(Vec<i64>),
    Texts(Vec<String>),
    Record { name: String, amount: i64 },
    Map(BTreeMap<String, Option<String>>),
}
/// a key that reads as text where nothing is known about its type
fn text_key(k: &str) -> bool {
    !matches!(k, "~" | "null" | "Null" | "NULL" | "true" | "false") && k.parse::<f64>().is_err()
}
/// is it a value of the type
pub fn conforms(t: &Ty, v: &TV) -> bool {
    let all = |ts: &[Ty], vs: &[TV]| ts.len() == vs.len() && ts.iter().zip(vs).all(|(t, v)| conforms(t, v));
    let fields = |ts: &[(u8, Ty)], vs: &[TV]| {
        ts.len() == vs.len() && ts.iter().zip(vs).all(|((_, t), v)| conforms(t, v))
    };
    match (t, v) {
        (Ty::Bool, TV::Bool(_))
        | (Ty::Char, TV::Char(_))
        | (Ty::Str, TV::Str(_))
        | (Ty::Bytes, TV::Bytes(_))
        | (Ty::Unit, TV::Unit)
        | (Ty::UnitStruct, TV::Unit) => true,
        (Ty::Rich, TV::Rich(r)) => match &r.kind {
            Kind::Text { size: Some(x), .. } => !x.is_nan() && (*x != 0.0 || x.is_sign_positive()),
            Kind::Nested(i) => i.rest.keys().all(|k| {
                key_ok(k) && text_key(k) && !["id", "type", "long name", "adj", "tags"].contains(&k.as_str())
            }),
            _ => true,
        },
        (Ty::Untagged, TV::Un(u)) => match u {
            Un::Map(m) => !(m.contains_key("name") && m.contains_key("amount")) && m.keys().all(|k| key_ok(k) && text_key(k)),
            Un::Texts(v) => !v.is_empty(),
            _ => true,
        },
        (Ty::Int(8), TV::I(x)) => *x >= i8::MIN as i64 && *x <= i8::MAX as i64,
        (Ty::Int(16), TV::I(x)) => *x >= i16::MIN as i64 && *x <= i16::MAX as i64,
        (Ty::Int(32), TV::I(x)) => *x >= i32::MIN as i64 && *x <= i32::MAX as i64,
        (Ty::Int(64), TV::I(_)) => true,
        (Ty::Int(128), TV::I128(s)) => s.parse::<i128>().map_or(false, |x| x.to_string() == *s),
        (Ty::Uint(8), TV::U(x)) => *x <= u8::MAX as u64,
        (Ty::Uint(16), TV::U(x)) => *x <= u16::MAX as u64,
        (Ty::Uint(32), TV::U(x)) => *x <= u32::MAX as u64,
        (Ty::Uint(64), TV::U(_)) => true,
        (Ty::Uint(128), TV::U128(s)) => s.parse::<u128>().map_or(false, |x| x.to_string() == *s),
        (Ty::F32, TV::F32(b)) => !f32::from_bits(*b).is_nan(),
        (Ty::F64, TV::F64(b)) => !f64::from_bits(*b).is_nan(),
        (Ty::Opt(t), TV::Some(v)) => conforms(t, v),
        (Ty::Opt(_), TV::None) => true,
        (Ty::Newtype(t), v) => conforms(t, v),
        (Ty::Seq(t), TV::Seq(v)) => v.iter().all(|v| conforms(t, v)),
        (Ty::Tuple(t), TV::Seq(v)) | (Ty::TupleStruct(t), TV::Seq(v)) => all(t, v),
        (Ty::Struct(t), TV::Seq(v)) => fields(t, v),
        (Ty::Map(k, t), TV::Map(v)) => {
            v.iter().enumerate().all(|(i, (a, b))| {
                conforms(k, a)
                    && conforms(t, b)
                    && key_value_ok(a)
                    && !v[..i].iter().any(|(c, _)| key_text(c) == key_text(a))
            })
        }
        (Ty::Enum(vs), TV::Var(i, c)) => match vs.get(*i) {
            Some((_, Var::Unit)) => c.is_empty(),
            Some((_, Var::Newtype(t))) => c.len() == 1 && conforms(t, &c[0]),
            Some((_, Var::Tuple(t))) => all(t, c),
            Some((_, Var::Struct(t))) => fields(t, c),
            None => false,
        },
        _ => false,
    }
}
fn nullable(t: &Ty) -> bool {
    match t {
        Ty::Opt(_) | Ty::Unit | Ty::UnitStruct => true,
        Ty::Newtype(t) => nullable(t),
        _ => false,
    }
}
/// types the format can carry
pub fn valid_ty(t: &Ty, depth: usize) -> bool {
    if depth > 12 {
        return false;
    }
    let d = depth + 1;
    let fields = |v: &[(u8, Ty)]| {
        v.iter().all(|(n, t)| (*n as usize) < NAMES.len() && valid_ty(t, d))
            && v.iter().enumerate().all(|(i, (n, _))| !v[..i].iter().any(|(m, _)| m == n))
    };
    match t {
        Ty::Int(b) | Ty::Uint(b) => matches!(b, 8 | 16 | 32 | 64 | 128),
        // Some(null) and None look the same
        Ty::Opt(t) => !nullable(t) && valid_ty(t, d),
        Ty::Newtype(t) | Ty::Seq(t) => valid_ty(t, d),
        Ty::Tuple(v) | Ty::TupleStruct(v) => !v.is_empty() && v.iter().all(|t| valid_ty(t, d)),
        Ty::Struct(v) => fields(v),
        Ty::Map(k, t) => {
            matches!(**k, Ty::Str | Ty::Uint(8 | 16 | 32 | 64) | Ty::Bool | Ty::Char) && valid_ty(t, d)
        }
        Ty::Enum(v) => {
            !v.is_empty()
                && v.iter().enumerate().all(|(i, (n, x))| {
                    (*n as usize) < VARIANTS.len()
                        && !v[..i].iter().any(|(m, _)| m == n)
                        && match x {
                            Var::Unit => true,
                            Var::Newtype(t) => valid_ty(t, d),
                            Var::Tuple(v) => v.len() >= 2 && v.iter().all(|t| valid_ty(t, d)),
                            Var::Struct(v) => fields(v),
                        }
                })
        }
        _ => true,
    }
}
fn key_ok(k: &str) -> bool {
    crate::text::valid_key(k)
}
fn key_text(v: &TV) -> String {
    match v {
        TV::Str(s) => s.clone(),
        TV::U(u) => u.to_string(),
        TV::Bool(b) => b.to_string(),
        TV::Char(c) => c.to_string(),
        o => format!("{o:?}"),
    }
}
fn key_value_ok(v: &TV) -> bool {
    key_ok(&key_text(v))
}

// ---------------------------------------------------------------- serialize
fn spoint<E: serde::ser::Error>() -> Result<(), E> {
    fault::point(E::custom)
}
fn dpoint<E: de::Error>() -> Result<(), E> {
    fault::point(E::custom)
}
/// an element that a program prepared for failures leaves out
fn part<T, E>(i: usize, f: impl FnOnce() -> Result<T, E>) -> Result<(), E> {
    let path = fault::with(|s| s.path.clone());
    if fault::step(|| fault::child(i, f))?.is_none() {
        fault::with(|s| {
            s.path = path.clone();
            s.removed = Some([&path[..], &[i]].concat());
        });
    }
    Ok(())
}
/// the value without the element (or entry) at `path`
pub fn without(v: &TV, path: &[usize]) -> TV {
    let mut v = v.clone();
    fn go(v: &mut TV, p: &[usize]) {
        match (v, p) {
            (TV::Seq(x), [i]) => {
                x.remove(*i);
            }
            (TV::Map(x), [i]) => {
                x.remove(*i);
            }
            (TV::Seq(x), [i, rest @ ..]) => go(&mut x[*i], rest),
            (TV::Map(x), [i, rest @ ..]) => go(&mut x[*i].1, rest),
            (TV::Some(x), [_, rest @ ..]) => go(x, rest),
            (TV::Var(_, x), [i, rest @ ..]) => go(&mut x[*i], rest),
            (_, _) => {}
        }
    }
    go(&mut v, path);
    v
}
pub struct Ser<'a>(pub &'a Ty, pub &'a TV);
impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let Ser(t, v) = *self;
        spoint()?;
        match (t, v) {
            (_, TV::Bool(b)) => s.serialize_bool(*b),
            (Ty::Int(8), TV::I(x)) => s.serialize_i8(*x as i8),
            (Ty::Int(16), TV::I(x)) => s.serialize_i16(*x as i16),
            (Ty::Int(32), TV::I(x)) => s.serialize_i32(*x as i32),
            (Ty::Newtype(t), v) => s.serialize_newtype_struct("New", &Ser(t, v)),
            (_, TV::I(x)) => s.serialize_i64(*x),
            (_, TV::I128(x)) => s.serialize_i128(x.parse().unwrap_or(0)),
            (Ty::Uint(8), TV::U(x)) => s.serialize_u8(*x as u8),
            (Ty::Uint(16), TV::U(x)) => s.serialize_u16(*x as u16),
            (Ty::Uint(32), TV::U(x)) => s.serialize_u32(*x as u32),
            (_, TV::U(x)) => s.serialize_u64(*x),
            (_, TV::U128(x)) => s.serialize_u128(x.parse().unwrap_or(0)),
            (_, TV::F32(b)) => s.serialize_f32(f32::from_bits(*b)),
            (_, TV::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (_, TV::Char(c)) => s.serialize_char(*c),
            (_, TV::Str(x)) => s.serialize_str(x),
            (_, TV::Bytes(b)) => s.serialize_bytes(b),
            (_, TV::None) => s.serialize_none(),
            (Ty::Opt(t), TV::Some(v)) => fault::child(0, || s.serialize_some(&Ser(t, v))),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("Nothing"),
            (_, TV::Unit) => s.serialize_unit(),
            (_, TV::Un(u)) => u.serialize(s),
            (_, TV::Rich(u)) => u.serialize(s),
            (Ty::Seq(t), TV::Seq(v)) => {
                let mut q = s.serialize_seq(if v.len() % 2 == 0 { Some(v.len()) } else { None })?;
                for (i, x) in v.iter().enumerate() {
                    part(i, || q.serialize_element(&Ser(t, x)))?;
                    spoint()?;
                }
                q.end()
            }
            (Ty::Tuple(ts), TV::Seq(v)) => {
                let mut q = s.serialize_tuple(v.len())?;
                for (i, (t, x)) in ts.iter().zip(v).enumerate() {
                    fault::child(i, || q.serialize_element(&Ser(t, x)))?;
                    spoint()?;
                }
                q.end()
            }
            (Ty::TupleStruct(ts), TV::Seq(v)) => {
                let mut q = s.serialize_tuple_struct("Pair", v.len())?;
                for (i, (t, x)) in ts.iter().zip(v).enumerate() {
                    fault::child(i, || q.serialize_field(&Ser(t, x)))?;
                    spoint()?;
                }
                q.end()
            }
            (Ty::Struct(ts), TV::Seq(v)) => {
                let mut q = s.serialize_struct("Rec", v.len())?;
                for (i, ((n, t), x)) in ts.iter().zip(v).enumerate() {
                    fault::child(i, || q.serialize_field(NAMES[*n as usize], &Ser(t, x)))?;
                    spoint()?;
                }
                q.end()
            }
            (Ty::Map(k, t), TV::Map(v)) => {
                let mut q = s.serialize_map(if v.len() % 3 == 0 { None } else { Some(v.len()) })?;
                for (i, (a, b)) in v.iter().enumerate() {
                    part(i, || {
                        if i % 2 == 0 {
                            return q.serialize_entry(&Ser(k, a), &Ser(t, b));
                        }
                        q.serialize_key(&Ser(k, a))?;
                        q.serialize_value(&Ser(t, b))
                    })?;
                    spoint()?;
                }
                q.end()
            }
            (Ty::Enum(vs), TV::Var(i, c)) => {
                let (n, var) = &vs[*i];
                let name = VARIANTS[*n as usize];
                let i = *i as u32;
                match var {
                    Var::Unit => s.serialize_unit_variant("Choice", i, name),
                    Var::Newtype(t) => {
                        fault::child(0, || s.serialize_newtype_variant("Choice", i, name, &Ser(t, &c[0])))
                    }
                    Var::Tuple(ts) => {
                        let mut q = s.serialize_tuple_variant("Choice", i, name, c.len())?;
                        for (i, (t, x)) in ts.iter().zip(c).enumerate() {
                            fault::child(i, || q.serialize_field(&Ser(t, x)))?;
                            spoint()?;
                        }
                        q.end()
                    }
                    Var::Struct(ts) => {
                        let mut q = s.serialize_struct_variant("Choice", i, name, c.len())?;
                        for (i, ((n, t), x)) in ts.iter().zip(c).enumerate() {
                            fault::child(i, || q.serialize_field(NAMES[*n as usize], &Ser(t, x)))?;
                            spoint()?;
                        }
                        q.end()
                    }
                }
            }
            _ => Err(serde::ser::Error::custom("value does not conform")),
        }
    }
}

// -------------------------------------------------------------- deserialize
#[derive(Clone, Copy)]
pub struct Seed<'a>(pub &'a Ty);
struct V<'a>(&'a Ty);
struct Fields<'a>(&'a [(u8, Ty)]);
struct Elems<'a>(&'a [Ty]);
macro_rules! num {
    ($t:ty, $d:ident, $f:expr) => {
        <$t>::deserialize($d).map($f)
    };
}
impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = TV;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<TV, D::Error> {
        dpoint()?;
        match self.0 {
            Ty::Bool => bool::deserialize(d).map(TV::Bool),
            Ty::Int(8) => num!(i8, d, |x| TV::I(x as i64)),
            Ty::Int(16) => num!(i16, d, |x| TV::I(x as i64)),
            Ty::Int(32) => num!(i32, d, |x| TV::I(x as i64)),
            Ty::Int(128) => num!(i128, d, |x| TV::I128(x.to_string())),
            Ty::Int(_) => num!(i64, d, TV::I),
            Ty::Uint(8) => num!(u8, d, |x| TV::U(x as u64)),
            Ty::Uint(16) => num!(u16, d, |x| TV::U(x as u64)),
            Ty::Uint(32) => num!(u32, d, |x| TV::U(x as u64)),
            Ty::Uint(128) => num!(u128, d, |x| TV::U128(x.to_string())),
            Ty::Uint(_) => num!(u64, d, TV::U),
            Ty::F32 => f32::deserialize(d).map(|x| TV::F32(x.to_bits())),
            Ty::F64 => f64::deserialize(d).map(|x| TV::F64(x.to_bits())),
            Ty::Char => char::deserialize(d).map(TV::Char),
            Ty::Str => String::deserialize(d).map(TV::Str),
            Ty::Bytes => d.deserialize_byte_buf(V(self.0)),
            Ty::Opt(_) => d.deserialize_option(V(self.0)),
            Ty::Unit => d.deserialize_unit(V(self.0)),
            Ty::UnitStruct => d.deserialize_unit_struct("Nothing", V(self.0)),
            Ty::Newtype(_) => d.deserialize_newtype_struct("New", V(self.0)),
            Ty::Seq(_) => d.deserialize_seq(V(self.0)),
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), V(self.0)),
            Ty::TupleStruct(t) => d.deserialize_tuple_struct("Pair", t.len(), V(self.0)),
            Ty::Struct(_) => d.deserialize_struct("Rec", NAMES, V(self.0)),
            Ty::Map(..) => d.deserialize_map(V(self.0)),
            Ty::Enum(_) => d.deserialize_enum("Choice", VARIANTS, V(self.0)),
            Ty::Untagged => Un::deserialize(d).map(TV::Un),
            Ty::Rich => Rich::deserialize(d).map(|r| TV::Rich(Box::new(r))),
        }
    }
}
/// does a reader that asks for nothing in particular get the value and its type
pub fn fits(t: &Ty, v: &TV, g: &Val) -> bool {
    let num = |x: f64| match g {
        Val::Float(b) => f64::from_bits(*b) == x,
        Val::Int(i) => *i as f64 == x,
        Val::Uint(u) => *u as f64 == x,
        _ => false,
    };
    let all = |ts: &mut dyn Iterator<Item = &Ty>, v: &[TV], g: &[Val]| {
        v.len() == g.len() && ts.zip(v).zip(g).all(|((t, v), g)| fits(t, v, g))
    };
    let rec = |fs: &[(u8, Ty)], v: &[TV], g: &Val| match g {
        Val::Map(g) => {
            v.len() == g.len()
                && fs.iter().zip(v).zip(g).all(|(((n, t), v), (k, g))| NAMES[*n as usize] == k && fits(t, v, g))
        }
        _ => false,
    };
    match (t, v, g) {
        (Ty::Newtype(t), v, g) => fits(t, v, g),
        (Ty::Opt(t), TV::Some(v), g) => fits(t, v, g),
        (_, TV::None, g) => *g == Val::Null,
        (_, TV::Bool(b), g) => *g == Val::Bool(*b),
        (_, TV::I(x), Val::Int(y)) => x == y,
        (_, TV::I(x), Val::Uint(y)) => u64::try_from(*x) == Ok(*y),
        (_, TV::U(x), Val::Int(y)) => u64::try_from(*y) == Ok(*x),
        (_, TV::U(x), Val::Uint(y)) => x == y,
        (_, TV::I(_) | TV::U(_), _) => false,
        (_, TV::F32(b), _) if f32::from_bits(*b).is_finite() => match g {
            Val::Float(y) => f64::from_bits(*y) as f32 == f32::from_bits(*b),
            Val::Int(i) => *i as f32 == f32::from_bits(*b),
            Val::Uint(i) => *i as f32 == f32::from_bits(*b),
            _ => false,
        },
        (_, TV::F64(b), _) if f64::from_bits(*b).is_finite() => num(f64::from_bits(*b)),
        (_, TV::Char(c), g) => *g == Val::Str(c.to_string()),
        (_, TV::Str(s), g) => *g == Val::Str(s.clone()),
        (Ty::Seq(t), TV::Seq(v), Val::Seq(g)) => all(&mut std::iter::repeat(&**t), v, g),
        (Ty::Tuple(ts) | Ty::TupleStruct(ts), TV::Seq(v), Val::Seq(g)) => all(&mut ts.iter(), v, g),
        (Ty::Struct(fs), TV::Seq(v), g) => rec(fs, v, g),
        (_, TV::Seq(_), _) => false,
        (Ty::Map(_, t), TV::Map(v), Val::Map(g)) => {
            v.len() == g.len()
                && v.iter().zip(g).all(|((k, v), (h, g))| key_text(k) == *h && fits(t, v, g))
        }
        (_, TV::Map(_), _) => false,
        (Ty::Enum(vs), TV::Var(i, c), g) => {
            let (n, var) = &vs[*i];
            let name = VARIANTS[*n as usize];
            match (var, g) {
                (Var::Unit, g) => *g == Val::Str(name.into()),
                (_, Val::Map(m)) if m.len() == 1 && m[0].0 == name => match (var, &m[0].1) {
                    (Var::Newtype(t), g) => fits(t, &c[0], g),
                    (Var::Tuple(ts), Val::Seq(g)) => all(&mut ts.iter(), c, g),
                    (Var::Struct(fs), g) => rec(fs, c, g),
                    _ => false,
                },
                _ => false,
            }
        }
        _ => true,
    }
}
pub struct Ident(pub String);
impl<'de> Deserialize<'de> for Ident {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct I;
        impl Visitor<'_> for I {
            type Value = Ident;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("identifier")
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<Ident, E> {
                dpoint()?;
                Ok(Ident(v.to_string()))
            }
        }
        d.deserialize_identifier(I)
    }
}
fn read_fields<'de, A: MapAccess<'de>>(fs: &[(u8, Ty)], mut a: A) -> Result<Vec<TV>, A::Error> {
    let mut out: Vec<Option<TV>> = vec![None; fs.len()];
    while let Some(Ident(k)) = a.next_key()? {
        match fs.iter().position(|(n, _)| NAMES[*n as usize] == k) {
            Some(i) if out[i].is_some() => {
                return Err(de::Error::custom(format!("duplicate field {k}")))
            }
            Some(i) => {
                out[i] = Some(a.next_value_seed(Seed(&fs[i].1))?);
                dpoint()?;
            }
            None => {
                a.next_value::<IgnoredAny>()?;
            }
        }
    }
    out.into_iter()
        .enumerate()
        .map(|(i, x)| match (x, &fs[i].1) {
            (Some(x), _) => Ok(x),
            (None, Ty::Opt(_)) => Ok(TV::None),
            _ => Err(de::Error::missing_field(NAMES[fs[i].0 as usize])),
        })
        .collect()
}
fn read_elems<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<Vec<TV>, A::Error> {
    let mut v = Vec::new();
    for t in ts {
        match a.next_element_seed(Seed(t))? {
            Some(x) => v.push(x),
            None => return Err(de::Error::custom("too few elements")),
        }
    }
    if a.next_element::<IgnoredAny>()?.is_some() {
        return Err(de::Error::custom("too many elements"));
    }
    Ok(v)
}
impl<'de> Visitor<'de> for Fields<'_> {
    type Value = Vec<TV>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("fields")
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Vec<TV>, A::Error> {
        read_fields(self.0, a)
    }
}
impl<'de> Visitor<'de> for Elems<'_> {
    type Value = Vec<TV>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("elements")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<TV>, A::Error> {
        read_elems(self.0, a)
    }
}
impl<'de> Visitor<'de> for V<'_> {
    type Value = TV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a value of {:?}", self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<TV, E> {
        dpoint()?;
        match self.0 {
            Ty::Opt(_) => Ok(TV::None),
            Ty::Unit | Ty::UnitStruct => Ok(TV::Unit),
            _ => Err(E::custom("null")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<TV, E> {
        dpoint()?;
        self.visit_unit()
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<TV, D::Error> {
        dpoint()?;
        match self.0 {
            Ty::Opt(t) => Seed(t).deserialize(d).map(|x| TV::Some(Box::new(x))),
            _ => Err(de::Error::custom("some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<TV, D::Error> {
        dpoint()?;
        match self.0 {
            Ty::Newtype(t) => Seed(t).deserialize(d),
            _ => Err(de::Error::custom("newtype")),
        }
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<TV, E> {
        dpoint()?;
        Ok(TV::Bytes(b.to_vec()))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<TV, A::Error> {
        dpoint()?;
        match self.0 {
            Ty::Bytes => {
                let mut v = Vec::new();
                while let Some(x) = a.next_element()? {
                    v.push(x)
                }
                Ok(TV::Bytes(v))
            }
            Ty::Seq(t) => {
                let mut v = Vec::new();
                while let Some(x) = a.next_element_seed(Seed(t))? {
                    v.push(x)
                }
                Ok(TV::Seq(v))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => read_elems(ts, a).map(TV::Seq),
            _ => Err(de::Error::custom("sequence")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<TV, A::Error> {
        dpoint()?;
        match self.0 {
            Ty::Struct(fs) => read_fields(fs, a).map(TV::Seq),
            Ty::Map(k, t) => {
                let mut v = Vec::new();
                while let Some(x) = a.next_key_seed(Seed(k))? {
                    v.push((x, a.next_value_seed(Seed(t))?))
                }
                Ok(TV::Map(v))
            }
            _ => Err(de::Error::custom("map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<TV, A::Error> {
        dpoint()?;
        let Ty::Enum(vs) = self.0 else { return Err(de::Error::custom("enum")) };
        let (Ident(name), c) = a.variant()?;
        let Some(i) = vs.iter().position(|(n, _)| VARIANTS[*n as usize] == name) else {
            return Err(de::Error::custom(format!("unknown variant {name}")));
        };
        let content = match &vs[i].1 {
            Var::Unit => c.unit_variant().map(|_| vec![])?,
            Var::Newtype(t) => vec![c.newtype_variant_seed(Seed(t))?],
            Var::Tuple(ts) => c.tuple_variant(ts.len(), Elems(ts))?,
            Var::Struct(fs) => c.struct_variant(NAMES, Fields(fs))?,
        };
        Ok(TV::Var(i, content))
    }
}

// ---------------------------------------------------------------- generator
const STR: &[&str] = &[
    "", " ", "  ", "a", "x y", "1", "-1", "1.5", "1e3", "0x1F", "true", "True", "false", "null", "Null", "NULL", "~",
    "yes", "no", "on", "off", "inf", "-inf", "NaN", "nan", ".5", "+1", "- x", "-", "--", "---", "- - x", "*x", "&x", "&x y",
    "*", "&", "a: b", "a:b", "a:", ":", ": x", "a # b", "#x", "a#b", "[x]", "[", "]", "{x: 1}", "{", "}", "a, b", ",", "x,",
    "'", "''", "it's", "\"", "\"q\"", "say \"hi\"", "it's \"q\"", "\\", "C:\\dir", "a\\nb", "\\\"", "|", ">", "a | b", "a > b", "| x",
    "%", "@x", "`x`", "!x", "?", "? x", "\t", "\tx", "x\t", "a\tb", "\n", "\n\n", "a\n", "a\nb", "a\nb\n", "a\n\nb", "\na", "\n a",
    " a\nb", "a\n b", "a \nb", "a\n\n", "  a\n  b\n", "a\r\nb", "\r", "a\rb", "\u{a0}x", "x\u{a0}", "\u{3000}", "\u{85}", "\u{2028}x", "\u{feff}",
    "\0", "\u{1}", "😀", "ünï", "日本語", "a  b", "trailing ", " leading", "key: value # c", "# a\nb: c\n", "- a\n- b", "|\n  x", "a\n---\nb",
    "'a'\n\"b\"", "a\\\nb", "2020-01-02", "12:30", "=", "<<", "9223372036854775808", "18446744073709551616", "_1", "0o17", "''''",
];
pub fn gen_str(g: &mut Gen) -> String {
    match g.r.below(10) {
        0..=4 => g.r.pick(STR).to_string(),
        5 | 6 => {
            let n = g.r.range(1, 4);
            (0..n).map(|_| g.r.pick(STR).to_string()).collect::<Vec<_>>().join(*g.r.clone().pick(&["", " ", "\n", "\n\n", " \n"]))
        }
        7 => {
            let n = g.r.range(15, 60);
            let sep = *g.r.pick(&[" ", " ", " ", "  "]);
            let mut s = String::new();
            for i in 0..n {
                if i > 0 {
                    s.push_str(if g.r.pct(4) { "\n" } else { sep });
                }
                let w = g.r.range(1, 9);
                for _ in 0..w {
                    s.push(*g.r.pick(&['a', 'b', 'e', 'n', 'o', 't', 'é', '-', '.']));
                }
                if g.r.pct(2) {
                    s.push_str(g.r.pick(STR));
                }
            }
            s
        }
        8 if g.r.pct(20) => "x".repeat(g.r.range(80, 200)),
        _ if g.r.pct(40) => crate::gen::soup(g.r, 10),
        _ => {
            let n = g.r.range(0, 8);
            (0..n)
                .map(|_| {
                    *g.r.pick(&[
                        'a', 'b', ' ', ' ', '\n', '\t', '\'', '"', '\\', ':', '#', '-', ',', '[', ']', '{', '}', '|', '>', '*', '&',
                        '\r', '0', '1', 'é', '~', '%', '.', '\u{a0}', '?', '!', '\u{2003}',
                    ])
                })
                .collect()
        }
    }
}
fn gen_key(g: &mut Gen) -> String {
    match g.r.below(4) {
        0 => g.r.pick(NAMES).to_string(),
        1 => g.r.pick(&["1", "true", "null", "007", "1e3", "a b", "x-", "_", "a  b", "é", "12 34", "False", "inf", "NaN"]).to_string(),
        _ => {
            g.n += 1;
            format!("k{}", g.n)
        }
    }
}
pub fn gen_ty(g: &mut Gen, depth: usize) -> Ty {
    let k = if depth == 0 { g.r.below(12) } else { g.r.below(24) };
    match k {
        0 => Ty::Bool,
        1 => Ty::Int(*g.r.pick(&[8, 16, 32, 64, 64, 128])),
        2 => Ty::Uint(*g.r.pick(&[8, 16, 32, 64, 64, 128])),
        3 => Ty::F32,
        4 => Ty::F64,
        5 => Ty::Char,
        6 | 7 | 8 => Ty::Str,
        9 => g.r.pick(&[Ty::Bytes, Ty::Unit, Ty::UnitStruct, Ty::Untagged, Ty::Untagged]).clone(),
        10 => g.r.pick(&[Ty::Untagged, Ty::Rich, Ty::Rich]).clone(),
        11 => gen_enum(g, 0),
        12 | 13 => {
            for _ in 0..5 {
                let t = gen_ty(g, depth - 1);
                if !nullable(&t) {
                    return Ty::Opt(Box::new(t));
                }
            }
            Ty::Opt(Box::new(Ty::Str))
        }
        14 => Ty::Newtype(Box::new(gen_ty(g, depth - 1))),
        15 | 16 => Ty::Seq(Box::new(gen_ty(g, depth - 1))),
        17 => Ty::Tuple((0..g.r.range(1, 3)).map(|_| gen_ty(g, depth - 1)).collect()),
        18 => Ty::TupleStruct((0..g.r.range(1, 3)).map(|_| gen_ty(g, depth - 1)).collect()),
        19 | 20 => Ty::Struct(gen_fields(g, depth - 1)),
        21 | 22 => {
            let k = g.r.pick(&[Ty::Str, Ty::Str, Ty::Str, Ty::Uint(32), Ty::Bool, Ty::Char]).clone();
            Ty::Map(Box::new(k), Box::new(gen_ty(g, depth - 1)))
        }
        _ => gen_enum(g, depth - 1),
    }
}
fn gen_fields(g: &mut Gen, depth: usize) -> Vec<(u8, Ty)> {
    let n = g.r.range(0, 4);
    let mut v: Vec<(u8, Ty)> = Vec::new();
    for _ in 0..n {
        let k = g.r.below(NAMES.len()) as u8;
        if !v.iter().any(|x| x.0 == k) {
            let t = gen_ty(g, depth);
            v.push((k, t));
        }
    }
    v
}
fn gen_enum(g: &mut Gen, depth: usize) -> Ty {
    let n = g.r.range(1, 4);
    let mut v: Vec<(u8, Var)> = Vec::new();
    for _ in 0..n {
        let k = g.r.below(VARIANTS.len()) as u8;
        if v.iter().any(|x| x.0 == k) {
            continue;
        }
        let var = match if depth == 0 { 0 } else { g.r.below(5) } {
            0 | 1 => Var::Unit,
            2 => Var::Newtype(gen_ty(g, depth - 1)),
            3 => Var::Tuple((0..g.r.range(2, 3)).map(|_| gen_ty(g, depth - 1)).collect()),
            _ => Var::Struct(gen_fields(g, depth - 1)),
        };
        v.push((k, var));
    }
    Ty::Enum(v)
}
pub fn gen_val(g: &mut Gen, t: &Ty) -> TV {
    let int = |g: &mut Gen| -> i64 {
        *g.r.clone().pick(&[0, 1, -1, 7, 42, -128, 127, i64::MAX, i64::MIN, 1 << 40, (g.r.u64() >> 8) as i64, g.r.u64() as i64])
    };
    match t {
        Ty::Bool => TV::Bool(g.r.pct(50)),
        Ty::Int(128) => TV::I128(
            (g.r.pick(&[0i128, -1, 5, i128::MAX, i128::MIN, 1 << 80, -(1 << 70)])).to_string(),
        ),
        Ty::Uint(128) => TV::U128((g.r.pick(&[0u128, 5, u128::MAX, 1 << 80, u64::MAX as u128 + 1])).to_string()),
        Ty::Int(b) => {
            let x = int(g);
            g.r.u64();
            let sh = 64 - *b as u32;
            TV::I((x << sh) >> sh)
        }
        Ty::Uint(b) => {
            let x = int(g) as u64;
            g.r.u64();
            let sh = 64 - *b as u32;
            TV::U((x << sh) >> sh)
        }
        Ty::F32 => {
            let mut x = f32::from_bits(*g.r.clone().pick(&[
                0, 0x8000_0000, 1.5f32.to_bits(), 0.1f32.to_bits(), f32::MAX.to_bits(), f32::MIN_POSITIVE.to_bits(), 1,
                f32::INFINITY.to_bits(), f32::NEG_INFINITY.to_bits(), 16777216f32.to_bits(), 3f32.to_bits(), g.r.u64() as u32,
                g.r.u64() as u32,
            ]));
            if x.is_nan() {
                x = 2.0
            }
            TV::F32(x.to_bits())
        }
        Ty::F64 => {
            let mut x = f64::from_bits(*g.r.clone().pick(&[
                0, 1 << 63, 1.5f64.to_bits(), 0.1f64.to_bits(), f64::MAX.to_bits(), f64::MIN_POSITIVE.to_bits(), 1,
                f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), 1e15f64.to_bits(), 1e16f64.to_bits(), (-3f64).to_bits(),
                g.r.u64(), g.r.u64(), g.r.u64(),
            ]));
            if x.is_nan() {
                x = 2.0
            }
            TV::F64(x.to_bits())
        }
        Ty::Char if g.r.pct(40) => TV::Char(crate::gen::soup(g.r, 2).chars().next().unwrap()),
        Ty::Char => TV::Char(*g.r.pick(&[
            'a', '1', ' ', '\n', '\t', '\r', '\'', '"', '\\', '#', ':', '-', '*', '&', '~', '|', '>', '[', ']', '{', '}', ',', 'é',
            '😀', '\0', '\u{a0}', '%', '!', '?', '\u{85}', '\u{2028}', '\u{feff}', 'n',
        ])),
        Ty::Str => TV::Str(gen_str(g)),
        Ty::Bytes => {
            // Mostly a few bytes of any value; some longer, some that read as text.
            let n = if g.r.pct(25) { g.r.below(48) } else { g.r.below(6) };
            match g.r.below(6) {
                0 => TV::Bytes((0..n).map(|_| *g.r.pick(b"abcXYZ")).collect()),
                1 => TV::Bytes((0..n).map(|_| *g.r.pick(b"0123456789")).collect()),
                2 => TV::Bytes((0..n).map(|_| *g.r.pick(b" a-:,[]{}#'\"\n")).collect()),
                3 => TV::Bytes(crate::gen::soup(g.r, n.clamp(1, 12)).into_bytes()),
                4 => TV::Bytes(vec![g.r.u64() as u8; n]),
                _ => TV::Bytes((0..n).map(|_| g.r.u64() as u8).collect()),
            }
        }
        Ty::Opt(t) => {
            if g.r.pct(35) {
                TV::None
            } else {
                TV::Some(Box::new(gen_val(g, t)))
            }
        }
        Ty::Unit | Ty::UnitStruct => TV::Unit,
        Ty::Newtype(t) => gen_val(g, t),
        Ty::Seq(t) => TV::Seq((0..g.r.below(5)).map(|_| gen_val(g, t)).collect()),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => TV::Seq(ts.iter().map(|t| gen_val(g, t)).collect()),
        Ty::Struct(fs) => TV::Seq(fs.iter().map(|(_, t)| gen_val(g, t)).collect()),
        Ty::Map(k, t) => {
            let mut v: Vec<(TV, TV)> = Vec::new();
            for _ in 0..g.r.below(5) {
                let key = match **k {
                    Ty::Str => TV::Str(gen_key(g)),
                    Ty::Char => TV::Char(*g.r.pick(&['a', 'é', '1', '_', 'Z', '日'])),
                    _ => gen_val(g, k),
                };
                if key_value_ok(&key) && !v.iter().any(|(c, _)| key_text(c) == key_text(&key)) {
                    let x = gen_val(g, t);
                    v.push((key, x))
                }
            }
            TV::Map(v)
        }
        Ty::Enum(vs) => {
            let i = g.r.below(vs.len());
            let c = match &vs[i].1 {
                Var::Unit => vec![],
                Var::Newtype(t) => vec![gen_val(g, t)],
                Var::Tuple(ts) => ts.iter().map(|t| gen_val(g, t)).collect(),
                Var::Struct(fs) => fs.iter().map(|(_, t)| gen_val(g, t)).collect(),
            };
            TV::Var(i, c)
        }
        Ty::Rich => {
            let kind = match g.r.below(3) {
                0 => Kind::Empty,
                1 => Kind::Text {
                    body: gen_str(g),
                    size: *g.r.pick(&[None, Some(1.0), Some(0.5), Some(-3.0), Some(1e300), Some(1e22), Some(-0.125), Some(123456.75)]),
                },
                _ => {
                    let mut rest = BTreeMap::new();
                    for _ in 0..g.r.below(3) {
                        let k = gen_key(g);
                        if key_ok(&k) && text_key(&k) && !["id", "type", "long name", "adj", "tags"].contains(&k.as_str()) {
                            let v = if g.r.pct(25) { None } else { Some(gen_str(g)) };
                            rest.insert(k, v);
                        }
                    }
                    Kind::Nested(Inner { tags: (0..g.r.below(3)).map(|_| gen_str(g)).collect(), rest })
                }
            };
            let adj = (0..g.r.below(4))
                .map(|_| match g.r.below(4) {
                    0 => Adj::A,
                    1 => Adj::B(gen_str(g), *g.r.pick(&[0, -1, i64::MIN, i64::MAX])),
                    2 => Adj::C { x: g.r.pct(50), y: *g.r.pick(&['a', '1', '\n', '\'', ' ', '~', '-', '#']) },
                    _ => Adj::D((0..g.r.below(3)).map(|i| if g.r.pct(30) { None } else { Some(i as i64) }).collect()),
                })
                .collect();
            let note = if g.r.pct(50) { Some(gen_str(g)) } else { None };
            TV::Rich(Box::new(Rich { id: g.r.below(5) as u32, kind, note, adj }))
        }
        Ty::Untagged => TV::Un(match g.r.below(7) {
            0 => Un::Flag(g.r.pct(50)),
            1 => {
                let x = int(g);
                g.r.u64();
                Un::Int(x)
            }
            2 => Un::Text(gen_str(g)),
            3 => {
                let n = g.r.below(4);
                Un::List((0..n).map(|i| i as i64 - 1).collect())
            }
            4 => {
                let n = g.r.range(1, 3);
                Un::Texts((0..n).map(|_| gen_str(g)).collect())
            }
            5 => Un::Record { name: gen_str(g), amount: g.r.below(100) as i64 },
            _ => {
                let n = g.r.below(4);
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let v = if g.r.pct(25) { None } else { Some(gen_str(g)) };
                    let k = gen_key(g);
                    if text_key(&k) {
                        m.insert(k, v);
                    }
                }
                m.remove("amount");
                Un::Map(m)
            }
        }),
    }
}
