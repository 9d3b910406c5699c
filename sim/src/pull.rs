//! A consumer that pulls a document the way its script says: what it reads, by
//! which type it asks for it, what it ignores or leaves unread, where it stops.
//! Everything it is given is compared with the reference document on the spot.
use crate::fault;
use crate::model::*;
use crate::reader::*;
use serde::de::{
    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor,
};
use serde::Deserialize;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub struct St {
    pub script: Vec<u8>,
    pub pos: usize,
    pub budget: u32,
    pub root: Rc<RNode>,
    /// failures are handled where they can be
    pub lenient: bool,
    pub h: u64,
    pub read: u64,
    pub bad: Option<String>,
    /// the read ended with an undefined alias
    pub undefined: Option<String>,
    pub live: i64,
    pub made: u64,
    pub kinds: Vec<&'static str>,
}
impl Default for St {
    fn default() -> St {
        St {
            script: vec![],
            pos: 0,
            budget: 1500,
            root: Rc::new(RNode::Undefined(String::new())),
            lenient: false,
            h: crate::core::FNV0,
            read: 0,
            bad: None,
            undefined: None,
            live: 0,
            made: 0,
            kinds: vec![],
        }
    }
}
thread_local! {
    static ST: RefCell<St> = RefCell::new(St::default());
}
pub fn with<T>(f: impl FnOnce(&mut St) -> T) -> T {
    ST.with(|x| f(&mut x.borrow_mut()))
}
fn next(n: usize) -> usize {
    with(|s| {
        let b = s.script.get(s.pos).copied().unwrap_or(0) as usize;
        s.pos += 1;
        b % n
    })
}
fn log(tag: &'static str, x: &str) {
    with(|s| {
        s.h = crate::core::fnv(s.h, tag.as_bytes());
        s.h = crate::core::fnv(s.h, x.as_bytes());
        s.read += 1;
        if !s.kinds.contains(&tag) {
            s.kinds.push(tag)
        }
    })
}
fn bad<T, E: de::Error>(m: String) -> Result<T, E> {
    with(|s| {
        s.bad.get_or_insert(m.clone());
    });
    Err(E::custom(format!("wrong: {m}")))
}
fn point<E: de::Error>() -> Result<(), E> {
    fault::point(E::custom)
}
/// a value of the consumer's own
pub struct Probe(());
impl Probe {
    fn new() -> Probe {
        with(|s| {
            s.live += 1;
            s.made += 1;
        });
        Probe(())
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        with(|s| s.live -= 1)
    }
}
/// a step that may meet an undefined alias, which a lenient consumer survives
fn lenient<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<Option<T>, E> {
    let r = fault::step(f);
    match r {
        Err(e) => {
            let go_on = with(|s| {
                let g = s.lenient && s.undefined.is_some() && s.bad.is_none();
                if g {
                    s.undefined = None
                }
                g
            });
            if go_on {
                Ok(None)
            } else {
                Err(e)
            }
        }
        ok => ok,
    }
}
#[derive(Clone)]
pub struct Pull(pub Rc<RNode>);
enum Leaf {
    Any,
    Text,
    Wide,
    Num,
}
struct LeafV(Val, Leaf, String);
struct NodeV(Rc<RNode>);
fn short(v: &impl fmt::Debug) -> String {
    format!("{v:?}").chars().take(200).collect()
}
impl LeafV {
    fn got<E: de::Error>(self, v: Val) -> Result<Probe, E> {
        point()?;
        let want = match self.1 {
            Leaf::Any => self.0.clone(),
            Leaf::Text => Val::Str(self.2.clone()),
            Leaf::Wide => Val::Str(format!("wide {}", self.2)),
            Leaf::Num => match (&v, &self.0) {
                (Val::Float(_), Val::Int(i)) => Val::Float((*i as f64).to_bits()),
                (Val::Float(_), Val::Uint(i)) => Val::Float((*i as f64).to_bits()),
                (Val::Uint(_), Val::Int(i)) => Val::Uint(*i as u64),
                _ => self.0.clone(),
            },
        };
        // a number is the same number, whatever its sign of zero or notation
        let eq = match (&v, &want) {
            (Val::Float(a), Val::Float(b)) => f64::from_bits(*a) == f64::from_bits(*b) || a == b,
            (a, b) => a == b,
        };
        if !eq {
            return bad(format!("{} was read where {} is written", short(&v), short(&want)));
        }
        log("leaf", &short(&v));
        Ok(Probe::new())
    }
}
impl<'de> Visitor<'de> for LeafV {
    type Value = Probe;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Probe, E> {
        self.got(Val::Null)
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Probe, E> {
        self.got(Val::Bool(v))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Probe, E> {
        self.got(Val::Int(v))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Probe, E> {
        self.got(Val::Uint(v))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<Probe, E> {
        self.got(Val::Str(format!("wide {v}")))
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<Probe, E> {
        self.got(Val::Str(format!("wide {v}")))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Probe, E> {
        self.got(Val::Float(v.to_bits()))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Probe, E> {
        self.got(Val::Str(v.to_string()))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Probe, A::Error> {
        point()?;
        let (p, c) = a.variant_seed(KeySeed(self.2))?;
        point()?;
        c.unit_variant()?;
        Ok(p)
    }
}
fn bool_word(s: &Scalar) -> Option<bool> {
    match s {
        Scalar::Plain(t) => match t.as_str() {
            "True" | "TRUE" | "yes" | "Yes" | "YES" | "on" | "On" | "ON" => Some(true),
            "False" | "FALSE" | "no" | "No" | "NO" | "off" | "Off" | "OFF" => Some(false),
            _ => None,
        },
        _ => None,
    }
}
/// asked for with a type that the value does not have: nothing may arrive
struct Never(&'static str, Rc<RNode>);
impl Never {
    fn no<T, E: de::Error>(self, v: impl fmt::Debug) -> Result<T, E> {
        bad(format!("asked for {}, {} arrived from {}", self.0, short(&v), short(&self.1)))
    }
}
impl<'de> Visitor<'de> for Never {
    type Value = Probe;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Probe, E> {
        self.no(())
    }
    fn visit_none<E: de::Error>(self) -> Result<Probe, E> {
        self.no("none")
    }
    fn visit_some<D: Deserializer<'de>>(self, _d: D) -> Result<Probe, D::Error> {
        self.no("some")
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Probe, E> {
        self.no(v)
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Probe, E> {
        self.no(v)
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Probe, E> {
        self.no(v)
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<Probe, E> {
        self.no(v)
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<Probe, E> {
        self.no(v)
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Probe, E> {
        self.no(v)
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Probe, E> {
        self.no(v)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, _a: A) -> Result<Probe, A::Error> {
        self.no("a list")
    }
    fn visit_map<A: MapAccess<'de>>(self, _a: A) -> Result<Probe, A::Error> {
        self.no("a map")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, _a: A) -> Result<Probe, A::Error> {
        self.no("an enum")
    }
}
/// a variant without content, where there is some
struct NoContent(String, Rc<RNode>);
impl<'de> Visitor<'de> for NoContent {
    type Value = Probe;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a variant without content")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Probe, A::Error> {
        point()?;
        let (p, c) = a.variant_seed(KeySeed(self.0))?;
        point()?;
        match c.unit_variant() {
            Ok(()) => bad(format!("asked for a variant without content, {} is not refused", short(&self.1))),
            Err(e) => {
                drop(p);
                Err(e)
            }
        }
    }
}
/// a variant with content, where there is none
struct Filled(String, Rc<RNode>, usize);
impl<'de> Visitor<'de> for Filled {
    type Value = Probe;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a variant with content")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Probe, A::Error> {
        point()?;
        let (p, c) = a.variant_seed(NameSeed(self.0))?;
        point()?;
        let never = Never("the content of a variant", self.1.clone());
        let res = match self.2 {
            0 => c.tuple_variant(1, never),
            1 => c.struct_variant(&["a"], never),
            _ => c.newtype_variant_seed(never),
        };
        drop(p);
        res
    }
}
/// Asks for the value with a type it does not have: that fails, here. None:
/// it may be of that type.
fn wrong<'de, D: Deserializer<'de>>(d: D, r: &Rc<RNode>, how: usize) -> Result<Result<Probe, D::Error>, D> {
    let never = |t| Never(t, r.clone());
    let before = fault::fired();
    let res = match (&**r, how) {
        (RNode::Scalar(sc), _) => {
            let v = scalar_val(sc);
            let t = scalar_value(sc);
            let number = t.parse::<f64>().is_ok() || t.parse::<i128>().is_ok();
            let whole = match &v {
                Val::Int(_) | Val::Uint(_) => true,
                Val::Float(b) => f64::from_bits(*b).fract() == 0.0,
                _ => number,
            };
            // the integer a number stands for, if it fits
            let exact = |lo: f64, hi: f64| match &v {
                Val::Float(b) => {
                    let f = f64::from_bits(*b);
                    f.fract() == 0.0 && f >= lo && f <= hi
                }
                _ => whole,
            };
            let (signed, wide) = (exact(-9.3e18, 9.3e18), exact(-1.8e38, 1.8e38));
            let (unsigned, uwide) = (exact(0.0, 1.9e19), exact(0.0, 3.5e38));
            // a number that does not fit is refused by the types of serde
            let fits = |lo: i128, hi: i128| match &v {
                Val::Int(i) => (*i as i128) >= lo && (*i as i128) <= hi,
                Val::Uint(i) => (*i as i128) <= hi,
                _ => true,
            };
            macro_rules! native {
                ($t:ty) => {
                    match <$t>::deserialize(d) {
                        Ok(x) => bad(format!("{} was read as {x} of type {}", short(&v), stringify!($t))),
                        Err(e) => Err(e),
                    }
                };
            }
            match how {
                0 if !signed => d.deserialize_i64(never("an integer")),
                1 if !unsigned => d.deserialize_u64(never("an unsigned integer")),
                2 if !wide => d.deserialize_i128(never("a wide integer")),
                3 if !uwide => d.deserialize_u128(never("a wide unsigned integer")),
                4 if !number => d.deserialize_f64(never("a number")),
                5 if !number => d.deserialize_f32(never("a number")),
                6 | 7 if bool_word(sc).is_none() && !matches!(v, Val::Bool(_)) => d.deserialize_bool(never("a boolean")),
                8 => d.deserialize_seq(never("a list")),
                9 => d.deserialize_map(never("a map")),
                10 => d.deserialize_tuple(2, never("a tuple")),
                24 => d.deserialize_tuple(1, never("a tuple of one")),
                25 => d.deserialize_tuple_struct("Pair", 1 + t.len() % 2, never("a tuple struct")),
                26 => d.deserialize_enum("Choice", &["a"], Filled(t.clone(), r.clone(), t.len() % 3)),
                11 => d.deserialize_struct("Rec", &["a"], never("a struct")),
                12 if !fits(i8::MIN as i128, i8::MAX as i128) => native!(i8),
                13 if !fits(0, u8::MAX as i128) => native!(u8),
                14 if !fits(i16::MIN as i128, i16::MAX as i128) => native!(i16),
                15 if !fits(0, u16::MAX as i128) => native!(u16),
                16 if !fits(i32::MIN as i128, i32::MAX as i128) => native!(i32),
                17 if !fits(0, u32::MAX as i128) => native!(u32),
                18 if !fits(0, u64::MAX as i128) => native!(u64),
                19 if !fits(i64::MIN as i128, i64::MAX as i128) => native!(i64),
                20 if t.chars().count() != 1 => native!(char),
                21 if !fits(0, i128::MAX) => native!(u128),
                22 if v != Val::Null => d.deserialize_unit(never("nothing")),
                23 if v != Val::Null => d.deserialize_unit_struct("Nothing", never("nothing")),
                _ => return Err(d),
            }
        }
        (RNode::Seq(_), 0..=3) => d.deserialize_map(never("a map")),
        (RNode::Seq(_), 4..=6) => d.deserialize_struct("Rec", &["a"], never("a struct")),
        (RNode::Seq(_), 7 | 8) => d.deserialize_enum("Choice", &["a"], never("an enum")),
        (RNode::Map(_), 0..=3) => d.deserialize_seq(never("a list")),
        (RNode::Map(_), 4..=6) => d.deserialize_tuple(how - 4, never("a tuple")),
        (RNode::Map(_), 24 | 25) => d.deserialize_tuple_struct("Pair", how - 23, never("a tuple struct")),
        (RNode::Map(m), 7..=13) if m.len() != 1 => d.deserialize_enum("Choice", &["a"], never("an enum")),
        (RNode::Map(m), 22 | 23) if m.len() == 1 => match &*m[0].1 {
            RNode::Undefined(_) => return Err(d),
            RNode::Scalar(s) if scalar_val(s) == Val::Null => return Err(d),
            x => d.deserialize_enum("Choice", &["a"], NoContent(m[0].0.clone(), Rc::new(x.clone()))),
        },
        (RNode::Seq(_) | RNode::Map(_), 21) => d.deserialize_unit(never("nothing")),
        (RNode::Seq(_) | RNode::Map(_), 22) => d.deserialize_unit_struct("Nothing", never("nothing")),
        (RNode::Seq(_) | RNode::Map(_), 9 | 10) => d.deserialize_str(never("a text")),
        (RNode::Seq(_) | RNode::Map(_), 11) => d.deserialize_string(never("a text")),
        (RNode::Seq(_) | RNode::Map(_), 12) => d.deserialize_identifier(never("a name")),
        (RNode::Seq(_) | RNode::Map(_), 13) => d.deserialize_char(never("a character")),
        (RNode::Seq(_) | RNode::Map(_), 14) => d.deserialize_bool(never("a boolean")),
        (RNode::Seq(_) | RNode::Map(_), 15 | 16) => d.deserialize_i64(never("an integer")),
        (RNode::Seq(_) | RNode::Map(_), 17) => d.deserialize_u64(never("an unsigned integer")),
        (RNode::Seq(_) | RNode::Map(_), 18) => d.deserialize_f64(never("a number")),
        (RNode::Seq(_) | RNode::Map(_), 19) => d.deserialize_i128(never("a wide integer")),
        (RNode::Seq(_) | RNode::Map(_), 20) => d.deserialize_u128(never("a wide unsigned integer")),
        _ => return Err(d),
    };
    if res.is_err() && fault::fired() == before && with(|s| s.bad.is_none()) {
        log("refused", "");
        with(|s| s.undefined = Some(String::new()));
    }
    Ok(res)
}
struct KeySeed(String);
impl<'de> DeserializeSeed<'de> for KeySeed {
    type Value = Probe;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> {
        point()?;
        let v = scalar_val(&Scalar::Plain(self.0.clone()));
        match next(6) {
            0 | 1 => d.deserialize_identifier(LeafV(v, Leaf::Text, self.0)),
            2 => d.deserialize_str(LeafV(v, Leaf::Text, self.0)),
            3 => d.deserialize_any(LeafV(v, Leaf::Any, self.0)),
            4 => d.deserialize_string(LeafV(v, Leaf::Text, self.0)),
            _ => IgnoredAny::deserialize(d).map(|_| Probe::new()),
        }
    }
}
struct NameSeed(String);
impl<'de> DeserializeSeed<'de> for NameSeed {
    type Value = Probe;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> {
        point()?;
        let v = Val::Str(self.0.clone());
        d.deserialize_identifier(LeafV(v, Leaf::Text, self.0))
    }
}
impl<'de> DeserializeSeed<'de> for Never {
    type Value = Probe;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> {
        point()?;
        // a name alone may stand for the content null
        d.deserialize_map(self)
    }
}
/// leaves the value unread
struct Unread;
impl<'de> DeserializeSeed<'de> for Unread {
    type Value = Probe;
    fn deserialize<D: Deserializer<'de>>(self, _d: D) -> Result<Probe, D::Error> {
        point()?;
        log("unread", "");
        Ok(Probe::new())
    }
}
impl<'de> DeserializeSeed<'de> for Pull {
    type Value = Probe;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> {
        point()?;
        let left = with(|s| {
            s.budget = s.budget.saturating_sub(1);
            s.budget
        });
        if left == 0 {
            return Unread.deserialize(d);
        }
        let d = if next(18) == 13 && !matches!(&*self.0, RNode::Undefined(_)) {
            match wrong(d, &self.0, next(27)) {
                Ok(r) => return r,
                Err(d) => d,
            }
        } else {
            d
        };
        let how = next(16);
        match how {
            14 => {
                log("ignored", "");
                return match IgnoredAny::deserialize(d) {
                    Ok(_) => Ok(Probe::new()),
                    Err(e) => bad(format!("ignoring a value fails: {e}")),
                };
            }
            15 => return Unread.deserialize(d),
            12 => return d.deserialize_newtype_struct("New", NodeV(self.0)),
            13 if !matches!(&*self.0, RNode::Undefined(_)) => return d.deserialize_option(NodeV(self.0)),
            _ => {}
        }
        let r = self.0.clone();
        match &*r {
            RNode::Undefined(name) => {
                let v = NodeV(self.0);
                let before = fault::fired();
                let res = match how {
                    1 => d.deserialize_str(v),
                    2 => d.deserialize_option(v),
                    3 => d.deserialize_seq(v),
                    4 => d.deserialize_map(v),
                    5 => d.deserialize_i64(v),
                    6 => d.deserialize_enum("Choice", &["a"], v),
                    7 => d.deserialize_struct("Rec", &["a"], v),
                    8 => d.deserialize_bool(v),
                    9 => d.deserialize_f64(v),
                    10 => d.deserialize_u64(v),
                    11 => d.deserialize_unit(v),
                    _ => d.deserialize_any(v),
                };
                match res {
                    Ok(_) => bad(format!("the undefined alias {name} was read")),
                    Err(e) if fault::fired() && !before => Err(e),
                    Err(e) => {
                        if !e.to_string().contains(name.as_str()) {
                            return bad(format!("the error about the undefined alias {name} says: {e}"));
                        }
                        log("undefined", name);
                        with(|s| s.undefined = Some(name.clone()));
                        Err(e)
                    }
                }
            }
            RNode::Scalar(sc) => {
                let v = scalar_val(sc);
                let t = scalar_value(sc);
                let leaf = |l| LeafV(v.clone(), l, t.clone());
                match (how, &v) {
                    (1, _) => d.deserialize_str(leaf(Leaf::Text)),
                    (2, _) => d.deserialize_string(leaf(Leaf::Text)),
                    (3, _) => d.deserialize_identifier(leaf(Leaf::Text)),
                    (4, _) => d.deserialize_enum("Choice", &["a"], leaf(Leaf::Text)),
                    (5, _) if t.chars().count() == 1 => d.deserialize_char(leaf(Leaf::Text)),
                    (6..=9, Val::Bool(_)) => d.deserialize_bool(leaf(Leaf::Any)),
                    // the words that are booleans for those who ask for one
                    (6..=9, Val::Str(_)) if bool_word(sc).is_some() => {
                        d.deserialize_bool(LeafV(Val::Bool(bool_word(sc) == Some(true)), Leaf::Any, t.clone()))
                    }
                    (6 | 7, Val::Null) => d.deserialize_unit(leaf(Leaf::Any)),
                    (8, Val::Null) => d.deserialize_unit_struct("Nothing", leaf(Leaf::Any)),
                    (6, Val::Int(_)) => d.deserialize_i64(leaf(Leaf::Any)),
                    (7, Val::Int(i)) if *i > 0 => d.deserialize_u64(leaf(Leaf::Num)),
                    (7, Val::Uint(_)) => d.deserialize_u64(leaf(Leaf::Any)),
                    (8, Val::Int(i)) => {
                        let s = i.to_string();
                        d.deserialize_i128(LeafV(v.clone(), Leaf::Wide, s))
                    }
                    (8, Val::Uint(i)) => {
                        let s = i.to_string();
                        d.deserialize_u128(LeafV(v.clone(), Leaf::Wide, s))
                    }
                    (9 | 10, Val::Int(_) | Val::Uint(_) | Val::Float(_)) => d.deserialize_f64(leaf(Leaf::Num)),
                    (11, Val::Float(_)) => d.deserialize_f32(leaf(Leaf::Num)),
                    _ => d.deserialize_any(leaf(Leaf::Any)),
                }
            }
            RNode::Seq(v) => {
                let n = v.len();
                let v = NodeV(self.0);
                match how {
                    1 | 2 => d.deserialize_seq(v),
                    3 => d.deserialize_tuple(n, v),
                    4 => d.deserialize_tuple_struct("Pair", n, v),
                    5 => d.deserialize_bytes(v),
                    6 => d.deserialize_byte_buf(v),
                    _ => d.deserialize_any(v),
                }
            }
            RNode::Map(m) => {
                let one = m.len() == 1;
                let v = NodeV(self.0);
                match how {
                    1 | 2 => d.deserialize_map(v),
                    3 | 4 => d.deserialize_struct("Rec", &["a", "b", "name"], v),
                    5..=8 if one => d.deserialize_enum("Choice", &["a", "b"], v),
                    _ => d.deserialize_any(v),
                }
            }
        }
    }
}
fn pull_seq<'de, A: SeqAccess<'de>>(v: &[Rc<RNode>], mut a: A) -> Result<Probe, A::Error> {
    point()?;
    log("seq", "");
    let mut got = Vec::new();
    for i in 0.. {
        let stop = next(24);
        if stop == 23 {
            log("stop", "");
            return Ok(Probe::new());
        }
        let how = next(16);
        a.size_hint();
        let ended = match v.get(i) {
            None => a.next_element::<IgnoredAny>()?.map(|_| None),
            Some(_) if how == 14 => a.next_element::<IgnoredAny>()?.map(|_| None),
            Some(_) if how == 15 => a.next_element_seed(Unread)?.map(Some),
            // a failed element is gone, the next one follows
            Some(x) => match lenient(|| a.next_element_seed(Pull(x.clone())))? {
                Some(x) => x.map(Some),
                None => Some(None),
            },
        };
        point()?;
        match (ended, i < v.len()) {
            (Some(p), true) => got.push(p),
            (None, false) => break,
            (Some(_), false) => return bad(format!("an element after the last one ({})", v.len())),
            (None, true) => return bad(format!("{i} elements instead of {}", v.len())),
        }
    }
    log("end", "");
    Ok(Probe::new())
}
fn pull_map<'de, A: MapAccess<'de>>(m: &[(String, Rc<RNode>)], mut a: A) -> Result<Probe, A::Error> {
    point()?;
    log("map", "");
    let mut got = Vec::new();
    for i in 0.. {
        if next(24) == 23 {
            log("stop", "");
            return Ok(Probe::new());
        }
        let how = next(16);
        a.size_hint();
        let Some((k, x)) = m.get(i) else {
            if a.next_key::<IgnoredAny>()?.is_some() {
                return bad(format!("a key after the last one ({})", m.len()));
            }
            break;
        };
        if how == 13 && !with(|s| s.lenient) && !fault::with(|f| f.recover) {
            match a.next_entry_seed(KeySeed(k.clone()), Pull(x.clone()))? {
                Some(p) => got.push(p.0),
                None => return bad(format!("{i} keys instead of {}", m.len())),
            }
        } else {
            // a program that cannot read a key cannot go on
            match a.next_key_seed(KeySeed(k.clone()))? {
                Some(p) => got.push(p),
                None => return bad(format!("{i} keys instead of {}", m.len())),
            }
            point()?;
            match how {
                14 => {
                    a.next_value::<IgnoredAny>()?;
                }
                15 => got.push(a.next_value_seed(Unread)?),
                _ => {
                    if let Some(p) = lenient(|| a.next_value_seed(Pull(x.clone())))? {
                        got.push(p)
                    }
                }
            }
        }
        point()?;
    }
    log("end", "");
    Ok(Probe::new())
}
impl<'de> Visitor<'de> for NodeV {
    type Value = Probe;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a node")
    }
    fn visit_none<E: de::Error>(self) -> Result<Probe, E> {
        point()?;
        match &*self.0 {
            RNode::Scalar(s) if scalar_val(s) == Val::Null => Ok(Probe::new()),
            o => bad(format!("none was read where {} is written", short(o))),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> {
        point()?;
        match &*self.0 {
            RNode::Scalar(s) if scalar_val(s) == Val::Null => bad("null was read as a value".into()),
            _ => Pull(self.0).deserialize(d),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> {
        point()?;
        Pull(self.0).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Probe, A::Error> {
        match &*self.0 {
            RNode::Seq(v) => pull_seq(v, a),
            o => bad(format!("a sequence was read where {} is written", short(o))),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Probe, A::Error> {
        match &*self.0 {
            RNode::Map(m) => pull_map(m, a),
            o => bad(format!("a map was read where {} is written", short(o))),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Probe, A::Error> {
        point()?;
        let RNode::Map(m) = &*self.0 else {
            return bad(format!("an enum was read where {} is written", short(&self.0)));
        };
        let (k, x) = &m[0];
        let (_p, c) = a.variant_seed(KeySeed(k.clone()))?;
        point()?;
        log("enum", "");
        match &**x {
            RNode::Seq(v) if next(3) == 1 => c.tuple_variant(v.len(), NodeV(x.clone())),
            RNode::Map(_) if next(3) == 1 => c.struct_variant(&["a", "b"], NodeV(x.clone())),
            _ => c.newtype_variant_seed(Pull(x.clone())),
        }
    }
}
/// the consumer as a type of its own
pub struct Top(#[allow(dead_code)] Probe);
impl<'de> Deserialize<'de> for Top {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Top, D::Error> {
        let r = with(|s| s.root.clone());
        Pull(r).deserialize(d).map(Top)
    }
}
/// a new consumer with this script for this document
pub fn start(root: &Rc<RNode>, script: &[u8], lenient: bool) {
    with(|s| *s = St { script: script.to_vec(), root: root.clone(), lenient, ..St::default() });
}
/// a script that leans towards reading
pub fn gen_script(r: &mut crate::rng::Rng) -> Vec<u8> {
    let n = if r.pct(15) { 0 } else { r.range(1, 60) };
    let wild = r.range(0, 90) as u32;
    (0..n).map(|_| if r.pct(wild) { r.below(240) as u8 } else { r.below(13) as u8 }).collect()
}
