//! C29 GraphML, C30 PlantUML, C31 documentation: what each writes is taken apart again and compared
//! with the facts of the model.
use super::iofam::{models, rich, neighbours};
use super::json::build_reversed;
use crate::kit::gen::*;
use crate::kit::order::with_seed;
use crate::kit::run::{guard, silent, Ctx};
use crate::kit::spec::*;
use atelier_core::io::ModelWriter;
use atelier_core::model::Model;
use atelier_describe::document::writer::{describe_model, DocumentationWriter};
use atelier_describe::graphml::writer::GraphMLWriter;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};

pub type Facts = BTreeMap<String, u64>;

fn add(f: &mut Facts, s: String) {
    *f.entry(s).or_default() += 1;
}
pub fn compare(want: &Facts, got: &Facts) -> Result<(), String> {
    for (k, n) in want {
        let g = got.get(k).copied().unwrap_or(0);
        if g != *n {
            return Err(format!("{k:?} is there {g} times, not {n}"));
        }
    }
    match got.keys().find(|k| !want.contains_key(*k)) {
        Some(k) => Err(format!("has {k:?}, which the model has not")),
        None => Ok(()),
    }
}
fn text(w: &mut impl ModelWriter, m: &Model) -> Result<String, String> {
    let mut b = vec![];
    silent(|| w.write(&mut b, m))?.map_err(|e| format!("not written: {e}"))?;
    String::from_utf8(b).map_err(|e| e.to_string())
}
fn all_models(thorough: bool) -> Vec<(String, Spec)> {
    let mut all = models(thorough);
    for (k, base) in rich().iter().enumerate() {
        for (what, sp) in neighbours(base) {
            all.push((format!("rich {k}: {what}"), sp));
        }
    }
    // every kind of shape with every kind of value on a trait
    for (i, b) in super::fam::plain_bodies().iter().enumerate() {
        for t in ["a#tr", "smithy.api#documentation", "smithy.api#externalDocumentation", "smithy.api#error", "smithy.api#trait"] {
            for (j, v) in super::fam::value_pool().iter().enumerate() {
                let mut b = b.clone();
                for m in b.members_mut() {
                    m.traits.insert(t.into(), Some(v.clone()));
                }
                let mut sp = Spec::default();
                sp.shapes.insert("a.b#_S".into(), Shape { traits: traits(&[(t, Some(v.clone())), ("smithy.api#required", None)]), body: b });
                all.push((format!("kind {i}, trait {t}, value {j}"), sp));
            }
        }
    }
    // operations whose input and output are shapes of every kind, used from services and resources
    let kinds: Vec<Body> = super::fam::plain_bodies().into_iter().filter(|b| !matches!(b, Body::Simple(k) if k != "string" && k != "bigDecimal")).collect();
    for (i, a) in kinds.iter().enumerate() {
        for (j, b) in kinds.iter().enumerate() {
            let mut sp = Spec::default().with("a#In", a.clone()).with("b#Out", b.clone());
            for bits in 0..4 {
                sp = sp.with(&format!("a#Op{bits}"), super::fam::op3((bits & 1 != 0).then_some("a#In"), (bits & 2 != 0).then_some("b#Out"), &["b#Out"]));
            }
            let ops: Vec<String> = (0..5).map(|b| format!("a#Op{b}")).collect();
            sp = sp.with("a#Svc", Body::Service(Svc { version: "v".into(), operations: ops.clone(), resources: vec!["b#Res".into(), "a#In".into()], ..Default::default() }));
            sp = sp.with(
                "b#Res",
                Body::Resource(Res {
                    identifiers: super::fam::smap(&[("i", "a#In"), ("o", "b#Out")]),
                    life: std::array::from_fn(|k| Some(format!("a#Op{}", k % 5))),
                    operations: ops.clone(),
                    collection_operations: ops[1..].to_vec(),
                    resources: vec!["b#Res".into(), "b#Out".into()],
                }),
            );
            all.push((format!("operations of kinds {i} and {j}"), sp));
        }
    }
    let mut seen = BTreeSet::new();
    all.retain(|(n, _)| seen.insert(n.clone()));
    all
}

/// Run `judge` on every model, built both ways; and on a rich model under many hash seeds.
fn over(c: &mut Ctx, nontrivial: fn(&Spec) -> bool, judge: fn(&Spec, &Model) -> Result<&'static str, String>) {
    for (name, sp) in &all_models(c.thorough) {
        c.case_o(name, nontrivial(sp), || {
            judge(sp, &sp.build())?;
            judge(sp, &build_reversed(sp)).map_err(|e| format!("built in reverse: {e}"))
        });
    }
    let k = super::iofam::kitchen();
    let r = rich();
    for seed in 0..(if c.thorough { 400u64 } else { 40 }) {
        for (i, sp) in std::iter::once(&k).chain(&r).enumerate() {
            c.case_o(&format!("hash seed {seed}, model {i}"), true, || with_seed(seed + 2, || guard(|| judge(sp, &sp.build())))?);
        }
    }
}

// ---------------------------------------------------------------------------------------- XML

#[derive(Debug, Default)]
struct El {
    name: String,
    attrs: BTreeMap<String, String>,
    text: String,
    kids: Vec<El>,
}
struct Xml<'a> {
    s: &'a str,
}
impl<'a> Xml<'a> {
    fn lit(&mut self, p: &str) -> bool {
        match self.s.strip_prefix(p) {
            Some(r) => {
                self.s = r;
                true
            }
            None => false,
        }
    }
    fn ws(&mut self) -> bool {
        let r = self.s.trim_start_matches([' ', '\t', '\n', '\r']);
        let any = r.len() < self.s.len();
        self.s = r;
        any
    }
    fn need(&mut self, p: &str) -> Result<(), String> {
        if self.lit(p) {
            Ok(())
        } else {
            Err(format!("not well-formed: {p:?} expected at {:?}", self.s.chars().take(30).collect::<String>()))
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let n = self.s.find(|c: char| !(c.is_alphanumeric() || "_:.-".contains(c))).unwrap_or(self.s.len());
        let (a, b) = self.s.split_at(n);
        if !a.starts_with(|c: char| c.is_alphabetic() || c == '_' || c == ':') {
            return Err(format!("not well-formed: name expected at {:?}", self.s.chars().take(30).collect::<String>()));
        }
        self.s = b;
        Ok(a.to_string())
    }
    /// Character data up to `end`, with references replaced.
    fn data(&mut self, end: char) -> Result<String, String> {
        let mut o = String::new();
        loop {
            let c = self.s.chars().next().ok_or("not well-formed: ends early")?;
            if c == end {
                return Ok(o);
            }
            self.s = &self.s[c.len_utf8()..];
            match c {
                '<' => return Err("not well-formed: < in text".into()),
                '>' if o.ends_with("]]") => return Err("not well-formed: ]]> in text".into()),
                '&' => {
                    let (r, rest) = self.s.split_once(';').ok_or("not well-formed: bare &")?;
                    self.s = rest;
                    o.push(match r {
                        "amp" => '&',
                        "lt" => '<',
                        "gt" => '>',
                        "quot" => '"',
                        "apos" => '\'',
                        _ => {
                            let n = match r.strip_prefix("#x") {
                                Some(h) => u32::from_str_radix(h, 16).ok(),
                                None => r.strip_prefix('#').and_then(|d| d.parse().ok()),
                            };
                            n.and_then(char::from_u32).filter(|c| xml_char(*c)).ok_or(format!("not well-formed: &{r};"))?
                        }
                    });
                }
                '\r' => {
                    self.lit("\n");
                    o.push('\n');
                }
                c if !xml_char(c) => return Err(format!("not well-formed: character {c:?}")),
                c => o.push(c),
            }
        }
    }
    fn element(&mut self) -> Result<El, String> {
        self.need("<")?;
        let mut e = El { name: self.name()?, ..Default::default() };
        loop {
            let sp = self.ws();
            if self.lit("/>") {
                return Ok(e);
            }
            if self.lit(">") {
                break;
            }
            if !sp {
                return Err("not well-formed: white space expected in a tag".into());
            }
            let k = self.name()?;
            self.ws();
            self.need("=")?;
            self.ws();
            let q = if self.lit("'") { '\'' } else { self.need("\"").map(|_| '"')? };
            let v = self.data(q)?;
            self.need(&q.to_string())?;
            if e.attrs.insert(k.clone(), v).is_some() {
                return Err(format!("not well-formed: attribute {k} twice"));
            }
        }
        loop {
            e.text += &self.data('<')?;
            if self.lit("</") {
                let n = self.name()?;
                self.ws();
                self.need(">")?;
                if n != e.name {
                    return Err(format!("not well-formed: {} ended by {n}", e.name));
                }
                return Ok(e);
            }
            if self.lit("<!--") {
                self.s = self.s.split_once("-->").ok_or("not well-formed: comment")?.1;
                continue;
            }
            let k = self.element()?;
            e.kids.push(k);
        }
    }
}
fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
}
fn xml(s: &str) -> Result<El, String> {
    let mut x = Xml { s };
    if x.lit("<?xml") {
        x.s = x.s.split_once("?>").ok_or("not well-formed: declaration")?.1;
    }
    x.ws();
    let e = x.element()?;
    x.ws();
    if !x.s.is_empty() {
        return Err("not well-formed: text after the document".into());
    }
    Ok(e)
}

// ---------------------------------------------------------------------------------------- C29

fn graphml_facts(t: &str) -> Result<Facts, String> {
    let mut f = Facts::new();
    let g = xml(t)?;
    if g.name != "graphml" || g.attrs.get("xmlns").map(|s| s.as_str()) != Some("http://graphml.graphdrawing.org/xmlns") {
        return Err("not a GraphML document".into());
    }
    let mut keys: BTreeMap<String, (String, String)> = BTreeMap::new();
    let mut graphs = 0;
    let mut ids = BTreeSet::new();
    for k in &g.kids {
        match k.name.as_str() {
            "key" => {
                let a = |n: &str| k.attrs.get(n).cloned().ok_or(format!("key without {n}"));
                if keys.insert(a("id")?, (a("for")?, a("attr.name")?)).is_some() {
                    return Err("two keys with one id".into());
                }
            }
            "graph" => {
                graphs += 1;
                if k.attrs.get("edgedefault").map(|s| s.as_str()) != Some("directed") {
                    return Err("the graph is not directed".into());
                }
                let data = |e: &El, kind: &str| -> Result<String, String> {
                    let mut v = vec![];
                    for d in &e.kids {
                        if d.name != "data" {
                            if kind == "graph" {
                                continue;
                            }
                            return Err(format!("{} in a {kind}", d.name));
                        }
                        let key = d.attrs.get("key").ok_or("data without key")?;
                        let (what, name) = keys.get(key).ok_or(format!("data for key {key:?}, which is not declared"))?;
                        if what != kind && what != "all" {
                            return Err(format!("key {key:?} is not for a {kind}"));
                        }
                        if !d.kids.is_empty() {
                            return Err("elements in data".into());
                        }
                        v.push(format!("{name}={}", d.text));
                    }
                    v.sort();
                    Ok(v.join("; "))
                };
                add(&mut f, format!("graph [{}]", data(k, "graph")?));
                for e in &k.kids {
                    let a = |n: &str| e.attrs.get(n).cloned().ok_or(format!("{} without {n}", e.name));
                    match e.name.as_str() {
                        "node" => add(&mut f, format!("node {} [{}]", a("id")?, data(e, "node")?)),
                        "edge" => {
                            if !ids.insert(a("id")?) {
                                return Err(format!("two edges with id {}", a("id")?));
                            }
                            add(&mut f, format!("edge {} -> {} [{}]", a("source")?, a("target")?, data(e, "edge")?));
                        }
                        "data" => {}
                        n => return Err(format!("element {n} in the graph")),
                    }
                }
            }
            n => return Err(format!("element {n} in the document")),
        }
    }
    if graphs != 1 {
        return Err(format!("{graphs} graphs"));
    }
    Ok(f)
}
fn graphml_expected(sp: &Spec) -> Facts {
    let mut f = Facts::new();
    add(&mut f, "graph [smithy.version=1.0]".into());
    for (id, s) in &sp.shapes {
        if s.body == Body::Unresolved {
            continue;
        }
        match &s.body {
            Body::Service(v) => add(&mut f, format!("node {id} [type=service; version={}]", v.version)),
            b => add(&mut f, format!("node {id} [type={}]", b.kind())),
        }
        for t in s.traits.keys() {
            add(&mut f, format!("edge {id} -> {t} [trait=true]"));
        }
        for (name, target) in edges(&s.body) {
            add(&mut f, format!("edge {id} -> {target} [member={name}]"));
        }
    }
    f
}
/// The members of a shape: name, target.
fn edges(b: &Body) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = b.members().iter().map(|m| (m.name.clone(), m.target.clone())).collect();
    let mut many = |n: &str, l: &[String]| v.extend(l.iter().map(|t| (n.to_string(), t.clone())));
    match b {
        Body::Service(s) => {
            many("operations", &s.operations);
            many("resources", &s.resources);
        }
        Body::Operation(o) => {
            many("input", o.input.as_slice());
            many("output", o.output.as_slice());
            many("errors", &o.errors);
        }
        Body::Resource(r) => {
            for (k, l) in LIFE.iter().zip(&r.life) {
                many(k, l.as_slice());
            }
            many("operations", &r.operations);
            many("collectionOperations", &r.collection_operations);
            many("resources", &r.resources);
        }
        _ => {}
    }
    v
}

pub fn graphml(c: &mut Ctx) {
    c.per_case = 4;
    c.rule = "every model of the shared families, every change of one detail of twelve rich models, every kind of shape with every kind of trait value, and operations with input and output of every pair of kinds, each built in two orders, rich models under every hash seed, and a structure with more members than 16 bits count: the document is well-formed XML whose nodes and edges are those of the model; non-trivial = the model has a defined shape".into();
    over(c, |sp| sp.shapes.values().any(|s| s.body != Body::Unresolved), |sp, m| {
        let open = sp.shapes.values().any(|s| matches!(&s.body, Body::Service(v) if !v.version.chars().all(xml_char)));
        let t = text(&mut GraphMLWriter::default(), m)?;
        if open {
            return Ok("XML cannot express the version");
        }
        compare(&graphml_expected(sp), &graphml_facts(&t)?)?;
        Ok("the graph of the model")
    });
    c.case("many edges", true, || {
        let ms: Vec<Mem> = (0..70_000).map(|i| mem(&format!("m{i}"), "a#T")).collect();
        let sp = Spec::default().with("a#S", Body::Structure(st(&ms)));
        let t = text(&mut GraphMLWriter::default(), &sp.build())?;
        compare(&graphml_expected(&sp), &graphml_facts(&t)?)
    });
}

// ---------------------------------------------------------------------------------------- C30

/// Packages, their classes with everything in them, and relations; each line in a normal form.
pub fn uml_facts(t: &str) -> Result<Facts, String> {
    let mut f = Facts::new();
    let lines: Vec<&str> = t.split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    if lines.first() != Some(&"@startuml") || lines.last() != Some(&"@enduml") {
        return Err("does not start with @startuml and end with @enduml".into());
    }
    let mut pkg: Option<String> = None;
    let mut i = 1;
    while i + 1 < lines.len() {
        let l = lines[i];
        i += 1;
        let p = pkg.clone().unwrap_or_default();
        if l == "hide empty members" {
            continue;
        }
        if let Some(n) = l.strip_prefix("package ").and_then(|r| r.strip_suffix(" {")) {
            if pkg.is_some() {
                return Err(format!("{l:?} inside a package"));
            }
            pkg = Some(n.to_string());
            add(&mut f, format!("package {n}"));
        } else if l == "}" {
            if pkg.take().is_none() {
                return Err("} without a package".into());
            }
        } else if (l.starts_with("class ") || l.starts_with("annotation ")) && l.ends_with("{ }") {
            add(&mut f, format!("{p}: {}", l.strip_suffix("{ }").unwrap().trim()));
        } else if (l.starts_with("class ") || l.starts_with("annotation ")) && l.ends_with('{') {
            let head = l.strip_suffix('{').unwrap().trim().to_string();
            add(&mut f, format!("{p}: {head}"));
            // the separators split a class into compartments
            let mut part = String::new();
            let mut body = vec![];
            loop {
                let l = *lines.get(i).ok_or("class is not closed")?;
                i += 1;
                if l == "}" {
                    break;
                }
                body.push(l);
            }
            // the first compartment is the traits if there is an unnamed separator
            if body.contains(&"..") {
                part = "traits".into();
            }
            for l in body {
                if l == ".." {
                    part = String::new();
                } else if let Some(n) = l.strip_prefix("..").and_then(|r| r.strip_suffix("..")) {
                    part = n.to_string();
                    add(&mut f, format!("{p}: {head}: section {part}"));
                } else {
                    add(&mut f, format!("{p}: {head}: {part}: {l}"));
                }
            }
        } else if l.starts_with("note as ") {
            let name = &l[8..];
            let mut body = vec![];
            loop {
                let l = *lines.get(i).ok_or("note is not closed")?;
                i += 1;
                if l == "end note" {
                    break;
                }
                body.push(l);
            }
            add(&mut f, format!("{p}: note {} as {name}", body.join(" ")));
        } else {
            add(&mut f, format!("{p}: {l}"));
        }
    }
    if pkg.is_some() {
        return Err("a package is not closed".into());
    }
    Ok(f)
}
fn uml_type(sp: &Spec, id: &str) -> String {
    let name = |t: &str| t.split_once('#').unwrap().1.to_string();
    match sp.shapes.get(id).map(|s| &s.body) {
        Some(Body::Simple(k)) => k.clone(),
        Some(Body::List(m)) => format!("List<{}>", name(&m.target)),
        Some(Body::Set(m)) => format!("Set<{}>", name(&m.target)),
        Some(Body::Map(k, v)) => format!("Map<{}, {}>", name(&k.target), name(&v.target)),
        _ => id.to_string(),
    }
}
pub fn uml_expected(sp: &Spec, expand: bool) -> Facts {
    let mut f = Facts::new();
    let mut spaces = BTreeSet::new();
    if expand {
        add(&mut f, "package smithy.api".into());
        for k in SIMPLE {
            add(&mut f, format!("smithy.api: class {k} <<primitive>>"));
        }
    }
    for (id, s) in &sp.shapes {
        if s.body == Body::Unresolved {
            continue;
        }
        let p = id.split_once('#').unwrap().0;
        if spaces.insert(p) {
            add(&mut f, format!("package {p}"));
            if expand {
                add(&mut f, format!(": {p} ..> smithy.api"));
            }
        }
        let kind = match &s.body {
            Body::Simple(k) => {
                if expand {
                    add(&mut f, format!("{p}: smithy.api.{k} <|-- {id}"));
                }
                format!("class {id} <<dataType>>")
            }
            Body::Structure(_) | Body::Union(_) => {
                if s.traits.contains_key("smithy.api#trait") {
                    format!("annotation {id}")
                } else if s.traits.contains_key("smithy.api#error") {
                    format!("class {id} <<error>>")
                } else if s.body.kind() == "union" {
                    format!("class {id} <<union>>")
                } else {
                    format!("class {id}")
                }
            }
            Body::Service(_) => format!("class {id} <<service>>"),
            Body::Resource(_) => format!("class {id} <<resource>>"),
            _ => continue,
        };
        let h = format!("{p}: {kind}");
        add(&mut f, h.clone());
        for (t, v) in &s.traits {
            match (t.as_str(), v) {
                ("smithy.api#error", _) => {}
                ("smithy.api#documentation", Some(V::Str(x))) => {
                    add(&mut f, format!("{p}: note {x:?} as {id}_note_0"));
                    add(&mut f, format!("{p}: {id} .. {id}_note_0"));
                }
                ("smithy.api#documentation", _) => {}
                _ => {
                    let v = match v {
                        None | Some(V::None) => String::new(),
                        Some(V::Str(x)) => format!(" = {x:?}"),
                        Some(V::Int(x)) => format!(" = {x}"),
                        Some(V::Float(x)) => format!(" = {}", x.0),
                        Some(V::Bool(x)) => format!(" = {x}"),
                        Some(V::Arr(_)) => " = [ .. ]".into(),
                        Some(V::Obj(_)) => " = { .. }".into(),
                    };
                    add(&mut f, format!("{h}: traits: @{t}{v}"));
                }
            }
        }
        let oper = |o: &str, name: &str| {
            let (i, r) = match sp.shapes.get(o).map(|s| &s.body) {
                Some(Body::Operation(op)) => (
                    op.input.as_ref().map(|t| uml_type(sp, t)).unwrap_or_default(),
                    op.output.as_ref().map(|t| format!(": {}", uml_type(sp, t))).unwrap_or_default(),
                ),
                _ => Default::default(),
            };
            format!("{name}(in: {i}){r}")
        };
        match &s.body {
            Body::Structure(ms) | Body::Union(ms) => {
                for m in ms.values() {
                    add(&mut f, format!("{h}: : {}: {}", m.name, m.target));
                }
            }
            Body::Service(v) => {
                add(&mut f, format!("{h}: : version: string = {:?}", v.version));
                for o in &v.operations {
                    add(&mut f, format!("{h}: : {}", oper(o, o)));
                }
                for r in &v.resources {
                    add(&mut f, format!("{p}: {id} *-- {r}"));
                }
            }
            Body::Resource(v) => {
                for (k, t) in &v.identifiers {
                    add(&mut f, format!("{h}: : {k}: {t}"));
                }
                for (k, o) in LIFE.iter().zip(&v.life) {
                    if let Some(o) = o {
                        add(&mut f, format!("{h}: : {}", oper(o, k)));
                    }
                }
                for (k, l) in [("operations", &v.operations), ("collectionOperations", &v.collection_operations)] {
                    if !l.is_empty() {
                        add(&mut f, format!("{h}: section {k}"));
                    }
                    for o in l {
                        add(&mut f, format!("{h}: {k}: {}", oper(o, o)));
                    }
                }
                for r in &v.resources {
                    add(&mut f, format!("{p}: {id} *-- {r}"));
                }
            }
            _ => {}
        }
    }
    f
}

pub fn plant_uml(c: &mut Ctx) {
    c.per_case = 4;
    c.rule = "the models of C29, with and without the Smithy API expanded: the packages, classes, fields, operations, notes and relations of the text are those of the model; non-trivial = the model has a shape the diagram shows".into();
    over(
        c,
        |sp| sp.shapes.values().any(|s| !matches!(s.body, Body::Unresolved | Body::List(_) | Body::Set(_) | Body::Map(..) | Body::Operation(_))),
        |sp, m| {
            compare(&uml_expected(sp, false), &uml_facts(&text(&mut PlantUmlWriter::default(), m)?)?)?;
            compare(&uml_expected(sp, false), &uml_facts(&text(&mut PlantUmlWriter::new(false), m)?)?)?;
            compare(&uml_expected(sp, true), &uml_facts(&text(&mut PlantUmlWriter::new(true), m)?)?).map_err(|e| format!("expanded: {e}"))?;
            Ok("the diagram of the model")
        },
    );
}

// ---------------------------------------------------------------------------------------- C31

fn inline(j: &J) -> String {
    match j {
        J::Array(a) => a.iter().map(inline).collect(),
        J::Object(o) => {
            let Some((k, v)) = o.iter().next() else { return "{}".into() };
            match k.as_str() {
                "Text" => v.as_str().unwrap_or("?").to_string(),
                "Span" => {
                    let t = inline(&v["inner"]);
                    let st: Vec<&str> = v["styles"].as_array().map(|a| a.iter().filter_map(|s| s.as_str()).filter(|s| *s != "Plain").collect()).unwrap_or_default();
                    match st.as_slice() {
                        [] => t,
                        ["Code"] => format!("`{t}`"),
                        ["Bold"] => format!("**{t}**"),
                        s => format!("{s:?}({t})"),
                    }
                }
                "HyperLink" => {
                    let target = match &v["target"] {
                        J::Object(o) => o.iter().map(|(k, v)| format!("{k}:{}", v.as_str().unwrap_or("?"))).collect::<String>(),
                        x => x.to_string(),
                    };
                    let cap = match &v["caption"] {
                        J::Null => String::new(),
                        J::String(s) => s.clone(),
                        x => inline(&x["inner"]),
                    };
                    format!("[{cap}]({target})")
                }
                _ => j.to_string(),
            }
        }
        J::String(s) => s.clone(),
        _ => j.to_string(),
    }
}
/// A block as one line, or several for quotes and lists.
fn block(prefix: &str, j: &J, out: &mut Vec<String>) {
    let Some((k, v)) = j.as_object().and_then(|o| o.iter().next()) else {
        out.push(format!("{prefix}{j}"));
        return;
    };
    match k.as_str() {
        "Paragraph" => out.push(format!("{prefix}{}", inline(&v["inner"]))),
        "Heading" => out.push(format!("{prefix}{}# {}{}", v["level"].as_str().unwrap_or("?"), inline(&v["inner"]), v["label"].as_str().map(|l| format!(" <{l}>")).unwrap_or_default())),
        "Quote" => v["content"].as_array().into_iter().flatten().for_each(|b| block(&format!("{prefix}> "), b, out)),
        "List" => {
            for i in v["inner"].as_array().into_iter().flatten() {
                let i = match i.as_object().and_then(|o| o.iter().next()) {
                    Some((k, v)) if k == "Item" => v,
                    _ => i,
                };
                out.push(format!("{prefix}* {}", inline(&i["inner"])));
            }
        }
        "Table" => {
            let cols: Vec<String> = v["columns"].as_array().into_iter().flatten().map(|c| inline(&c["text"])).collect();
            let mut rows: Vec<String> = v["rows"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|r| r["cells"].as_array().into_iter().flatten().map(|c| inline(&c["inner"])).collect::<Vec<_>>().join(" | "))
                .collect();
            rows.sort();
            out.push(format!("{prefix}table {}: {}", cols.join(" | "), rows.join(" || ")));
        }
        _ => out.push(format!("{prefix}{j}")),
    }
}
/// Facts: every line, prefixed by the namespace and shape headings it stands under.
fn doc_facts(m: &Model) -> Result<Facts, String> {
    let d = silent(|| describe_model(m))?.map_err(|e| format!("not described: {e}"))?;
    let j = serde_json::to_value(&d).map_err(|e| e.to_string())?;
    // the writer renders this document
    let want = somedoc::write::write_document_to_string(&d, somedoc::write::OutputFormat::Markdown(somedoc::write::markdown::MarkdownFlavor::CommonMark)).map_err(|e| e.to_string())?;
    if text(&mut DocumentationWriter::default(), m)? != want {
        return Err("the writer writes something else than the document, in CommonMark".into());
    }
    let mut f = Facts::new();
    add(&mut f, format!("title {}", j["metadata"][0]["Title"].as_str().unwrap_or("none")));
    let (mut ns, mut sh) = (String::new(), String::new());
    // what is said below the member of a list, set or map, or above one of a structure, is said of it
    let (mut list, mut at) = (None, String::new());
    for b in j["content"].as_array().into_iter().flatten() {
        let mut lines = vec![];
        block("", b, &mut lines);
        for l in lines {
            if l.contains("# ") && ["Section# ", "SubSection# ", "SubSubSection# "].iter().any(|h| l.starts_with(h)) {
                for l in list.take().unwrap_or_default() {
                    add(&mut f, format!("{ns} / {sh} / said of no member: {l}"));
                }
            }
            if let Some(h) = l.strip_prefix("Section# ") {
                ns = h.to_string();
                sh = String::new();
                at = String::new();
                add(&mut f, format!("section {ns}"));
            } else if let Some(h) = l.strip_prefix("SubSection# ") {
                sh = h.to_string();
                at = String::new();
                add(&mut f, format!("{ns} / {sh}"));
            } else if l.starts_with("SubSubSection# ") {
                list = (l == "SubSubSection# Members").then(Vec::new);
                at = String::new();
                add(&mut f, format!("{ns} / {sh} / {l}"));
            } else if let Some(said) = &mut list {
                if l.starts_with("> `") {
                    let name = l.trim_start_matches("> ").split(": ").next().unwrap_or_default();
                    for l in std::mem::take(said) {
                        add(&mut f, format!("{ns} / {sh} / {name} / {l}"));
                    }
                    add(&mut f, format!("{ns} / {sh} / {l}"));
                } else {
                    said.push(l);
                }
            } else if ["**Member type: **", "**Key type: **", "**, value type: **"].iter().any(|h| l.starts_with(h)) {
                at = l.split(": ").next().unwrap_or_default().to_string() + " / ";
                add(&mut f, format!("{ns} / {sh} / {l}"));
            } else {
                add(&mut f, format!("{ns} / {sh} / {at}{l}"));
            }
        }
    }
    for l in list.unwrap_or_default() {
        add(&mut f, format!("{ns} / {sh} / said of no member: {l}"));
    }
    Ok(f)
}
/// What may be left of `s` after the text of `v`, an object's keys being in any order.
fn eat<'a>(v: &V, s: &'a str) -> Vec<&'a str> {
    fn keys<'a>(left: &mut Vec<(&String, &V)>, first: bool, s: &'a str, out: &mut Vec<&'a str>) {
        if left.is_empty() {
            out.extend(s.strip_prefix(" }"));
            return;
        }
        let Some(s) = (if first { Some(s) } else { s.strip_prefix(", ") }) else { return };
        for i in 0..left.len() {
            if let Some(r) = s.strip_prefix(left[i].0.as_str()).and_then(|r| r.strip_prefix(": ")) {
                let (k, v) = left.remove(i);
                for r in eat(v, r) {
                    keys(left, false, r, out);
                }
                left.insert(i, (k, v));
            }
        }
    }
    match v {
        V::Obj(o) => {
            let mut out = vec![];
            if let Some(s) = s.strip_prefix("{ ") {
                keys(&mut o.iter().collect(), true, s, &mut out);
            }
            out
        }
        V::Arr(a) => {
            let mut rests: Vec<&str> = s.strip_prefix("[ ").into_iter().collect();
            for (i, x) in a.iter().enumerate() {
                rests = rests.into_iter().filter_map(|r| if i == 0 { Some(r) } else { r.strip_prefix(", ") }).flat_map(|r| eat(x, r)).collect();
            }
            rests.into_iter().filter_map(|r| r.strip_prefix(" ]")).collect()
        }
        _ => s.strip_prefix(display(v).as_str()).into_iter().collect(),
    }
}
/// The text of `v` (with the keys of objects in order).
fn display(v: &V) -> String {
    match v {
        V::Obj(o) => format!("{{ {} }}", o.iter().map(|(k, v)| format!("{k}: {}", display(v))).collect::<Vec<_>>().join(", ")),
        V::Arr(a) => format!("[ {} ]", a.iter().map(display).collect::<Vec<_>>().join(", ")),
        V::None => "None".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Float(f) => f.0.to_string(),
        V::Str(s) => format!("\"{s}\""),
    }
}
fn leaves(path: String, v: &V, out: &mut Vec<(String, Option<String>)>) {
    match v {
        V::Bool(b) => out.push((path, Some(b.to_string()))),
        V::Int(b) => out.push((path, Some(b.to_string()))),
        V::Float(b) => out.push((path, Some(b.0.to_string()))),
        V::Str(b) => out.push((path, Some(b.clone()))),
        V::Arr(a) if !a.is_empty() => a.iter().enumerate().for_each(|(i, v)| leaves(format!("{path}[{i}]"), v, out)),
        V::Obj(a) if !a.is_empty() => a.iter().for_each(|(k, v)| leaves(format!("{path}.{k}"), v, out)),
        _ => out.push((path, None)),
    }
}
fn doc_traits(tr: &Traits, f: &mut dyn FnMut(String)) {
    if let Some(Some(V::Str(t))) = tr.get("smithy.api#documentation") {
        f(t.clone());
    }
    if let Some(Some(V::Obj(o))) = tr.get("smithy.api#externalDocumentation") {
        if !o.is_empty() {
            // links are in no particular order: each is a fact of its own (see `split_links`)
            f("See also: ".into());
            for (k, v) in o {
                let url = match v {
                    V::Str(s) => s.clone(),
                    v => display(v),
                };
                f(format!("[{k}](External:{url})"));
            }
        }
    }
    let mut rows = vec![];
    for (id, v) in tr {
        if id == "smithy.api#documentation" || id == "smithy.api#externalDocumentation" {
            continue;
        }
        let id = id.strip_prefix("smithy.api#").unwrap_or(id);
        let mut l = vec![];
        match v {
            None => l.push((String::new(), None)),
            Some(v) => leaves(String::new(), v, &mut l),
        }
        for (p, v) in l {
            let p = if p.is_empty() { p } else { format!("`{p}`") };
            rows.push(format!("{id} | {p} | {}", v.map(|v| format!("`{v}`")).unwrap_or_default()));
        }
    }
    if !rows.is_empty() {
        rows.sort();
        f(format!("table Trait ID | Path | Value: {}", rows.join(" || ")));
    }
}
fn doc_expected(sp: &Spec) -> Facts {
    let mut f = Facts::new();
    add(&mut f, "title Smithy Model".into());
    add(&mut f, " /  / Smithy Version: 1.0".into());
    if !sp.metadata.is_empty() {
        add(&mut f, "section Metadata".into());
    }
    let mut spaces = BTreeSet::new();
    for (id, s) in &sp.shapes {
        if s.body == Body::Unresolved {
            continue;
        }
        let (ns, name) = id.split_once('#').unwrap();
        if spaces.insert(ns) {
            add(&mut f, format!("section Namespace {ns}"));
        }
        let h = format!("Namespace {ns} / {name} ({}) <shape:{name}>", s.body.kind());
        add(&mut f, h.clone());
        let mut say = |l: String| add(&mut f, format!("{h} / {l}"));
        let link = |t: &str| match t.split_once('#') {
            Some((n, x)) if n == ns => format!("[{x}](Internal:shape:{x})"),
            _ => format!("`{t}`"),
        };
        doc_traits(&s.traits, &mut say);
        match &s.body {
            Body::List(m) | Body::Set(m) => {
                say(format!("**Member type: **{}", link(&m.target)));
                doc_traits(&m.traits, &mut |l| say(format!("**Member type / {l}")));
            }
            Body::Map(k, v) => {
                say(format!("**Key type: **{}", link(&k.target)));
                doc_traits(&k.traits, &mut |l| say(format!("**Key type / {l}")));
                say(format!("**, value type: **{}", link(&v.target)));
                doc_traits(&v.traits, &mut |l| say(format!("**, value type / {l}")));
            }
            Body::Structure(ms) | Body::Union(ms) => {
                if !ms.is_empty() {
                    say("SubSubSection# Members".into());
                }
                for m in ms.values() {
                    say(format!("> `{}`: {}", m.name, link(&m.target)));
                    doc_traits(&m.traits, &mut |l| say(format!("`{}` / {l}", m.name)));
                }
            }
            Body::Service(v) => {
                say(format!("**Service version**: {}", v.version));
                list(&mut say, "Operations", &v.operations, &link);
                list(&mut say, "Resources", &v.resources, &link);
                if !v.renames.is_empty() {
                    say("SubSubSection# Renames".into());
                }
                for (a, b) in &v.renames {
                    say(format!("> * `{a}` renamed to `{b}`"));
                }
            }
            Body::Operation(o) => {
                if let Some(t) = &o.input {
                    say(format!("> **Input type**: {}", link(t)));
                }
                if let Some(t) = &o.output {
                    say(format!("> **Output type**: {}", link(t)));
                }
                if !o.errors.is_empty() {
                    say("> **Errors**:".into());
                }
                for t in &o.errors {
                    say(format!("> * {}", link(t)));
                }
            }
            Body::Resource(r) => {
                if r.life.iter().any(|l| l.is_some()) {
                    say("SubSubSection# Resource Operations".into());
                }
                for (k, t) in LIFE.iter().zip(&r.life) {
                    if let Some(t) = t {
                        say(format!("> * `{k}`: {}", link(t)));
                    }
                }
                list(&mut say, "Operations", &r.operations, &link);
                list(&mut say, "Collection Operations", &r.collection_operations, &link);
                list(&mut say, "Resources", &r.resources, &link);
            }
            _ => {}
        }
    }
    f
}
fn list(say: &mut dyn FnMut(String), head: &str, l: &[String], link: &dyn Fn(&str) -> String) {
    if !l.is_empty() {
        say(format!("SubSubSection# {head}"));
    }
    for t in l {
        say(format!("> * {}", link(t)));
    }
}
/// The links of a "See also" paragraph stand in no particular order: make each a fact.
fn split_links(f: Facts, want: &Facts) -> Facts {
    let mut o = Facts::new();
    for (k, n) in f {
        if want.contains_key(&k) || !k.contains(" / See also: ") {
            *o.entry(k).or_default() += n;
            continue;
        }
        let (h, mut rest) = k.split_once("See also: ").unwrap();
        *o.entry(format!("{h}See also: ")).or_default() += n;
        'next: while !rest.is_empty() {
            for w in want.keys() {
                if let Some(l) = w.strip_prefix(h).filter(|l| l.starts_with('[')) {
                    if let Some(r) = rest.strip_prefix(l) {
                        *o.entry(w.clone()).or_default() += n;
                        rest = r;
                        continue 'next;
                    }
                }
            }
            *o.entry(format!("{h}{rest}")).or_default() += n;
            break;
        }
    }
    o
}

pub fn documentation(c: &mut Ctx) {
    c.per_case = 4;
    c.rule = "the models of C29: the title, sections, headings, paragraphs, tables, lists and links of the document are those of the model, each under the heading of its shape, and the writer writes that document as CommonMark; non-trivial = the model has metadata or a defined shape".into();
    over(c, |sp| !sp.metadata.is_empty() || sp.shapes.values().any(|s| s.body != Body::Unresolved), |sp, m| {
        let mut want = doc_expected(sp);
        let mut got = doc_facts(m)?;
        // the metadata table: one row for every entry, in any order, values in any key order
        let key = got.keys().find(|k| k.starts_with("Metadata /  / table")).cloned();
        if let Some(k) = key {
            let t = k.strip_prefix("Metadata /  / table Key | Value: ").ok_or("metadata table has other columns")?;
            fn rows<'a>(left: &mut Vec<(&'a String, &'a V)>, t: &str) -> bool {
                (0..left.len()).any(|i| {
                    let (k, v) = left.remove(i);
                    let ok = t.strip_prefix(k.as_str()).and_then(|r| r.strip_prefix(" | `")).is_some_and(|r| {
                        eat(v, r).into_iter().filter_map(|r| r.strip_prefix('`')).any(|r| if left.is_empty() { r.is_empty() } else { r.strip_prefix(" || ").is_some_and(|r| rows(left, r)) })
                    });
                    left.insert(i, (k, v));
                    ok
                })
            }
            if !rows(&mut sp.metadata.iter().collect(), t) {
                return Err(format!("metadata rows {t:?}"));
            }
            got.remove(&k);
        } else if !sp.metadata.is_empty() {
            return Err("no table of metadata".into());
        }
        if sp.metadata.is_empty() {
            want.remove("section Metadata");
        }
        let got = split_links(got, &want);
        compare(&want, &got)?;
        Ok("the documentation of the model")
    });
}
