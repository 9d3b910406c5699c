//! What readers read: a self-describing value read through the library's
//! deserializer, and what the reference document says they must get.
use crate::model::*;
use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    Uint(u64),
    Float(u64),
    Str(String),
    Seq(Vec<Val>),
    Map(Vec<(String, Val)>),
}
/// the key of a map is read as text
pub struct Key(pub String);
impl<'de> Deserialize<'de> for Key {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d).map(Key)
    }
}
struct ValVisitor;
impl<'de> Visitor<'de> for ValVisitor {
    type Value = Val;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("any value")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Null)
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Null)
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> {
        Ok(Val::Bool(v))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
        Ok(Val::Int(v))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        Ok(Val::Uint(v))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> {
        Ok(Val::Float(v.to_bits()))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.to_string()))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element()? {
            v.push(x)
        }
        Ok(Val::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = Vec::new();
        while let Some(Key(k)) = a.next_key()? {
            v.push((k, a.next_value()?))
        }
        Ok(Val::Map(v))
    }
}
impl<'de> Deserialize<'de> for Val {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Val, D::Error> {
        crate::fault::point(<D::Error as de::Error>::custom)?;
        d.deserialize_any(ValVisitor)
    }
}

/// how a reader that asks for nothing in particular gets a scalar
pub fn scalar_val(s: &Scalar) -> Val {
    let t = scalar_value(s);
    if !matches!(s, Scalar::Plain(_)) {
        return Val::Str(t);
    }
    match t.as_str() {
        "~" | "null" | "Null" | "NULL" => return Val::Null,
        "true" => return Val::Bool(true),
        "false" => return Val::Bool(false),
        _ => {}
    }
    if let Ok(i) = t.parse::<i64>() {
        Val::Int(i)
    } else if let Ok(u) = t.parse::<u64>() {
        Val::Uint(u)
    } else if let Ok(f) = t.parse::<f64>() {
        Val::Float(f.to_bits())
    } else {
        Val::Str(t)
    }
}
/// the reference document with its aliases bound: every alias shares the value
/// of the last definition that is complete before it
#[derive(Clone, Debug)]
pub enum RNode {
    Undefined(String),
    Scalar(Scalar),
    Seq(Vec<Rc<RNode>>),
    Map(Vec<(String, Rc<RNode>)>),
}
pub fn bind(n: &MNode, env: &mut HashMap<String, Rc<RNode>>) -> Rc<RNode> {
    let def = |a: &Option<String>, v: &Rc<RNode>, env: &mut HashMap<String, Rc<RNode>>| {
        if let Some(a) = a {
            env.insert(a.clone(), v.clone());
        }
    };
    Rc::new(match n {
        MNode::Sc(s) => RNode::Scalar(s.clone()),
        MNode::Ref(a) => match env.get(a) {
            Some(v) => return v.clone(),
            None => RNode::Undefined(a.clone()),
        },
        MNode::Map { ents, .. } => RNode::Map(
            ents.iter()
                .filter_map(|e| match e {
                    Ent::Kv { key, alias, val } => {
                        let v = bind(val, env);
                        def(alias, &v, env);
                        Some((key.clone(), v))
                    }
                    _ => None,
                })
                .collect(),
        ),
        MNode::Seq { items, .. } => RNode::Seq(
            items
                .iter()
                .filter_map(|e| match e {
                    Item::El { alias, val } => {
                        let v = bind(val, env);
                        def(alias, &v, env);
                        Some(v)
                    }
                    _ => None,
                })
                .collect(),
        ),
    })
}
/// nodes a reader of everything meets, aliases counted each time
pub fn weight(n: &RNode, cap: u64) -> u64 {
    let mut s = 1;
    match n {
        RNode::Seq(v) => {
            for x in v {
                if s >= cap {
                    break;
                }
                s += weight(x, cap - s)
            }
        }
        RNode::Map(v) => {
            for (_, x) in v {
                if s >= cap {
                    break;
                }
                s += weight(x, cap - s)
            }
        }
        _ => {}
    }
    s
}
/// what reading everything must give; Err: the undefined anchor met first
pub fn read_all(n: &RNode) -> Result<Val, String> {
    Ok(match n {
        RNode::Undefined(a) => return Err(a.clone()),
        RNode::Scalar(s) => scalar_val(s),
        RNode::Seq(v) => Val::Seq(v.iter().map(|x| read_all(x)).collect::<Result<_, _>>()?),
        RNode::Map(v) => Val::Map(
            v.iter()
                .map(|(k, x)| read_all(x).map(|x| (k.clone(), x)))
                .collect::<Result<_, _>>()?,
        ),
    })
}
