//! The reference model: plain, boring data describing a Smithy model, plus the two bridges to the
//! code under test (`build`: through the low level model API; `observe`: through public accessors).
use atelier_core::model::shapes::*;
use atelier_core::model::values::{Number, Value};
use atelier_core::model::{HasIdentity, Identifier, Model, ShapeID};
use atelier_core::Version;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::str::FromStr;

#[derive(Clone, Copy, Debug)]
pub struct F(pub f64);
impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Eq for F {}
impl PartialOrd for F {
    fn partial_cmp(&self, o: &F) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for F {
    fn cmp(&self, o: &F) -> std::cmp::Ordering {
        self.0.to_bits().cmp(&o.0.to_bits())
    }
}
impl std::hash::Hash for F {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.to_bits().hash(h)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    None,
    Bool(bool),
    Int(i64),
    Float(F),
    Str(String),
    Arr(Vec<V>),
    Obj(BTreeMap<String, V>),
}

pub type Traits = BTreeMap<String, Option<V>>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Mem {
    pub name: String,
    pub target: String,
    pub traits: Traits,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Svc {
    pub version: String,
    pub operations: Vec<String>,
    pub resources: Vec<String>,
    pub renames: BTreeMap<String, String>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Op {
    pub input: Option<String>,
    pub output: Option<String>,
    pub errors: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Res {
    pub identifiers: BTreeMap<String, String>,
    /// create, put, read, update, delete, list
    pub life: [Option<String>; 6],
    pub operations: Vec<String>,
    pub collection_operations: Vec<String>,
    pub resources: Vec<String>,
}
pub const LIFE: [&str; 6] = ["create", "put", "read", "update", "delete", "list"];

pub const SIMPLE: [&str; 13] = [
    "blob", "boolean", "document", "string", "byte", "short", "integer", "long", "float", "double",
    "bigInteger", "bigDecimal", "timestamp",
];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Body {
    Simple(String),
    List(Mem),
    Set(Mem),
    Map(Mem, Mem),
    Structure(BTreeMap<String, Mem>),
    Union(BTreeMap<String, Mem>),
    Service(Svc),
    Operation(Op),
    Resource(Res),
    Unresolved,
}
impl Body {
    pub fn kind(&self) -> &str {
        match self {
            Body::Simple(s) => s,
            Body::List(_) => "list",
            Body::Set(_) => "set",
            Body::Map(..) => "map",
            Body::Structure(_) => "structure",
            Body::Union(_) => "union",
            Body::Service(_) => "service",
            Body::Operation(_) => "operation",
            Body::Resource(_) => "resource",
            Body::Unresolved => "unresolved",
        }
    }
    pub fn members(&self) -> Vec<&Mem> {
        match self {
            Body::List(m) | Body::Set(m) => vec![m],
            Body::Map(k, v) => vec![k, v],
            Body::Structure(ms) | Body::Union(ms) => ms.values().collect(),
            _ => vec![],
        }
    }
    pub fn members_mut(&mut self) -> Vec<&mut Mem> {
        match self {
            Body::List(m) | Body::Set(m) => vec![m],
            Body::Map(k, v) => vec![k, v],
            Body::Structure(ms) | Body::Union(ms) => ms.values_mut().collect(),
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Shape {
    pub traits: Traits,
    pub body: Body,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Spec {
    pub metadata: BTreeMap<String, V>,
    pub shapes: BTreeMap<String, Shape>,
}

pub fn sid(s: &str) -> ShapeID {
    // split by hand: the harness does not depend on ShapeID::from_str to build its own inputs
    let (ns, rest) = s.split_once('#').unwrap_or_else(|| panic!("harness: bad id {s}"));
    match rest.split_once('$') {
        Some((n, m)) => ShapeID::new_unchecked(ns, n, Some(m)),
        None => ShapeID::new_unchecked(ns, rest, None),
    }
}
pub fn ident(s: &str) -> Identifier {
    Identifier::new_unchecked(s)
}

thread_local! {
    /// Insert everything in reverse order when building.
    pub static REVERSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn dir<T>(i: impl Iterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = i.collect();
    if REVERSE.with(|r| r.get()) {
        v.reverse();
    }
    v
}

pub fn v_to(v: &V) -> Value {
    match v {
        V::None => Value::None,
        V::Bool(b) => Value::Boolean(*b),
        V::Int(i) => Value::Number(Number::Integer(*i)),
        V::Float(f) => Value::Number(Number::Float(f.0)),
        V::Str(s) => Value::String(s.clone()),
        V::Arr(a) => Value::Array(a.iter().map(v_to).collect()),
        V::Obj(o) => Value::Object(dir(o.iter()).into_iter().map(|(k, v)| (k.clone(), v_to(v))).collect()),
    }
}
pub fn v_from(v: &Value) -> V {
    match v {
        Value::None => V::None,
        Value::Boolean(b) => V::Bool(*b),
        Value::Number(Number::Integer(i)) => V::Int(*i),
        Value::Number(Number::Float(f)) => V::Float(F(*f)),
        Value::String(s) => V::Str(s.clone()),
        Value::Array(a) => V::Arr(a.iter().map(v_from).collect()),
        Value::Object(o) => V::Obj(o.iter().map(|(k, v)| (k.clone(), v_from(v))).collect()),
    }
}

pub fn traits_to(t: &Traits) -> AppliedTraits {
    dir(t.iter())
        .into_iter()
        .map(|(k, v)| (sid(k), v.as_ref().map(v_to)))
        .collect()
}
pub fn traits_from(t: &AppliedTraits) -> Traits {
    t.iter()
        .map(|(k, v)| (k.to_string(), v.as_ref().map(v_from)))
        .collect()
}
fn mem_to(m: &Mem) -> MemberShape {
    MemberShape::with_traits(ident(&m.name), sid(&m.target), traits_to(&m.traits))
}
fn mem_from(m: &MemberShape) -> Mem {
    Mem {
        name: m.id().to_string(),
        target: m.target().to_string(),
        traits: traits_from(m.traits()),
    }
}

pub fn body_to(b: &Body) -> ShapeKind {
    match b {
        Body::Simple(s) => ShapeKind::Simple(simple_of(s)),
        Body::List(m) => ShapeKind::List(ListOrSet::from(mem_to(m))),
        Body::Set(m) => ShapeKind::Set(ListOrSet::from(mem_to(m))),
        Body::Map(k, v) => ShapeKind::Map(Map::from(mem_to(k), mem_to(v))),
        Body::Structure(ms) => ShapeKind::Structure(StructureOrUnion::with_members(
            &dir(ms.values()).into_iter().map(mem_to).collect::<Vec<_>>(),
        )),
        Body::Union(ms) => ShapeKind::Union(StructureOrUnion::with_members(
            &dir(ms.values()).into_iter().map(mem_to).collect::<Vec<_>>(),
        )),
        Body::Service(s) => {
            let mut r = Service::new(&s.version);
            for o in &s.operations {
                r.add_operation(sid(o));
            }
            for o in &s.resources {
                r.add_resource(sid(o));
            }
            for (k, v) in dir(s.renames.iter()) {
                let _ = r.insert_rename_shape(sid(k), ident(v));
            }
            ShapeKind::Service(r)
        }
        Body::Operation(o) => {
            let mut r = Operation::default();
            if let Some(i) = &o.input {
                r.set_input(sid(i));
            }
            if let Some(i) = &o.output {
                r.set_output(sid(i));
            }
            for e in &o.errors {
                r.add_error(sid(e));
            }
            ShapeKind::Operation(r)
        }
        Body::Resource(x) => {
            let mut r = Resource::default();
            for (k, v) in dir(x.identifiers.iter()) {
                let _ = r.add_identifier(ident(k), sid(v));
            }
            let l = &x.life;
            if let Some(i) = &l[0] {
                r.set_create(sid(i));
            }
            if let Some(i) = &l[1] {
                r.set_put(sid(i));
            }
            if let Some(i) = &l[2] {
                r.set_read(sid(i));
            }
            if let Some(i) = &l[3] {
                r.set_update(sid(i));
            }
            if let Some(i) = &l[4] {
                r.set_delete(sid(i));
            }
            if let Some(i) = &l[5] {
                r.set_list(sid(i));
            }
            for e in &x.operations {
                r.add_operation(sid(e));
            }
            for e in &x.collection_operations {
                r.add_collection_operation(sid(e));
            }
            for e in &x.resources {
                r.add_resource(sid(e));
            }
            ShapeKind::Resource(r)
        }
        Body::Unresolved => ShapeKind::Unresolved,
    }
}

pub fn simple_of(s: &str) -> Simple {
    match s {
        "blob" => Simple::Blob,
        "boolean" => Simple::Boolean,
        "document" => Simple::Document,
        "string" => Simple::String,
        "byte" => Simple::Byte,
        "short" => Simple::Short,
        "integer" => Simple::Integer,
        "long" => Simple::Long,
        "float" => Simple::Float,
        "double" => Simple::Double,
        "bigInteger" => Simple::BigInteger,
        "bigDecimal" => Simple::BigDecimal,
        "timestamp" => Simple::Timestamp,
        _ => panic!("harness: simple {s}"),
    }
}
pub fn simple_name(s: &Simple) -> &'static str {
    match s {
        Simple::Blob => "blob",
        Simple::Boolean => "boolean",
        Simple::Document => "document",
        Simple::String => "string",
        Simple::Byte => "byte",
        Simple::Short => "short",
        Simple::Integer => "integer",
        Simple::Long => "long",
        Simple::Float => "float",
        Simple::Double => "double",
        Simple::BigInteger => "bigInteger",
        Simple::BigDecimal => "bigDecimal",
        Simple::Timestamp => "timestamp",
    }
}

fn ids<'a>(i: impl Iterator<Item = &'a ShapeID>) -> Vec<String> {
    i.map(|x| x.to_string()).collect()
}

pub fn body_from(b: &ShapeKind) -> Body {
    let mems = |s: &StructureOrUnion| -> BTreeMap<String, Mem> {
        s.members().map(|m| (m.id().to_string(), mem_from(m))).collect()
    };
    match b {
        ShapeKind::Simple(s) => Body::Simple(simple_name(s).to_string()),
        ShapeKind::List(l) => Body::List(mem_from(l.member())),
        ShapeKind::Set(l) => Body::Set(mem_from(l.member())),
        ShapeKind::Map(m) => Body::Map(mem_from(m.key()), mem_from(m.value())),
        ShapeKind::Structure(s) => Body::Structure(mems(s)),
        ShapeKind::Union(s) => Body::Union(mems(s)),
        ShapeKind::Service(s) => Body::Service(Svc {
            version: s.version().clone(),
            operations: ids(s.operations()),
            resources: ids(s.resources()),
            renames: s
                .renames()
                .map(|(k, v)| (k.to_string(), v.to_string()))
                .collect(),
        }),
        ShapeKind::Operation(o) => Body::Operation(Op {
            input: o.input().as_ref().map(|i| i.to_string()),
            output: o.output().as_ref().map(|i| i.to_string()),
            errors: ids(o.errors()),
        }),
        ShapeKind::Resource(r) => Body::Resource(Res {
            identifiers: r
                .identifiers()
                .map(|(k, v)| (k.to_string(), v.to_string()))
                .collect(),
            life: [r.create(), r.put(), r.read(), r.update(), r.delete(), r.list()]
                .map(|o| o.as_ref().map(|i| i.to_string())),
            operations: ids(r.operations()),
            collection_operations: ids(r.collection_operations()),
            resources: ids(r.resources()),
        }),
        ShapeKind::Unresolved => Body::Unresolved,
    }
}

pub fn shape_to(id: &str, s: &Shape) -> TopLevelShape {
    TopLevelShape::with_traits(sid(id), body_to(&s.body), traits_to(&s.traits))
}
pub fn shape_from(s: &TopLevelShape) -> Shape {
    Shape {
        traits: traits_from(s.traits()),
        body: body_from(s.body()),
    }
}

impl Spec {
    pub fn build(&self) -> Model {
        let mut m = Model::new(Version::V10);
        for (k, v) in dir(self.metadata.iter()) {
            m.add_metadata(k.clone(), v_to(v)).expect("harness: metadata");
        }
        for (id, s) in dir(self.shapes.iter()) {
            m.add_shape(shape_to(id, s)).expect("harness: add_shape");
        }
        m
    }
    pub fn observe(m: &Model) -> Spec {
        Spec {
            metadata: m.metadata().map(|(k, v)| (k.clone(), v_from(v))).collect(),
            shapes: m
                .shapes()
                .map(|s| (s.id().to_string(), shape_from(s)))
                .collect(),
        }
    }
    pub fn with_traits(mut self, id: &str, body: Body, traits: Traits) -> Spec {
        self.shapes.insert(id.to_string(), Shape { traits, body });
        self
    }
    pub fn with(mut self, id: &str, body: Body) -> Spec {
        self.shapes.insert(
            id.to_string(),
            Shape {
                traits: Traits::new(),
                body,
            },
        );
        self
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (k, v) in &self.metadata {
            let _ = write!(s, "meta {k:?}={}; ", show_v(v));
        }
        for (id, sh) in &self.shapes {
            let _ = write!(s, "{}; ", show_shape(id, sh));
        }
        s
    }
}

pub fn show_v(v: &V) -> String {
    match v {
        V::None => "None".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Float(f) => format!("{:?}f", f.0),
        V::Str(s) => format!("{s:?}"),
        V::Arr(a) => format!("[{}]", a.iter().map(show_v).collect::<Vec<_>>().join(",")),
        V::Obj(o) => format!(
            "{{{}}}",
            o.iter()
                .map(|(k, v)| format!("{k:?}:{}", show_v(v)))
                .collect::<Vec<_>>()
                .join(",")
        ),
    }
}
pub fn show_traits(t: &Traits) -> String {
    t.iter()
        .map(|(k, v)| match v {
            None => format!("@{k} "),
            Some(v) => format!("@{k}({}) ", show_v(v)),
        })
        .collect()
}
pub fn show_mem(m: &Mem) -> String {
    format!("{}{}:{}", show_traits(&m.traits), m.name, m.target)
}
pub fn show_shape(id: &str, s: &Shape) -> String {
    let b = match &s.body {
        Body::Service(x) => format!("{x:?}"),
        Body::Operation(x) => format!("{x:?}"),
        Body::Resource(x) => format!("{x:?}"),
        b => b.members().iter().map(|m| show_mem(m)).collect::<Vec<_>>().join(","),
    };
    format!("{}{} {}{{{}}}", show_traits(&s.traits), s.body.kind(), id, b)
}

/// First difference between an expected and an observed reference state.
pub fn diff(expect: &Spec, got: &Spec) -> Result<(), String> {
    if expect == got {
        return Ok(());
    }
    for (k, v) in &expect.metadata {
        match got.metadata.get(k) {
            None => return Err(format!("metadata {k:?} missing (expected {})", show_v(v))),
            Some(g) if g != v => {
                return Err(format!("metadata {k:?}: expected {}, got {}", show_v(v), show_v(g)))
            }
            _ => {}
        }
    }
    for k in got.metadata.keys() {
        if !expect.metadata.contains_key(k) {
            return Err(format!("unexpected metadata {k:?}"));
        }
    }
    for (k, v) in &expect.shapes {
        match got.shapes.get(k) {
            None => return Err(format!("shape {k} missing (expected {})", show_shape(k, v))),
            Some(g) if g != v => {
                return Err(format!(
                    "shape {k}: expected {}, got {}",
                    show_shape(k, v),
                    show_shape(k, g)
                ))
            }
            _ => {}
        }
    }
    for (k, v) in &got.shapes {
        if !expect.shapes.contains_key(k) {
            return Err(format!("unexpected shape {}", show_shape(k, v)));
        }
    }
    Ok(())
}

pub fn parse_id(s: &str) -> Option<ShapeID> {
    ShapeID::from_str(s).ok()
}
