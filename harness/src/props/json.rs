//! JSON AST: round trip, conformance of both directions, totality of the reader.
use super::ids::{ref_identifier, ref_shape_id};
use super::iofam::*;
use crate::kit::gen::*;
use crate::kit::json::*;
use crate::kit::order::with_seed;
use crate::kit::run::Ctx;
use crate::kit::spec::*;
use atelier_core::io::{ModelReader, ModelWriter};
use atelier_core::model::Model;
use atelier_json::{JsonReader, JsonWriter};
use std::collections::BTreeMap;

pub fn write(m: &Model, pretty: bool) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    JsonWriter::new(pretty).write(&mut out, m).map_err(|e| format!("writing failed: {e}"))?;
    Ok(out)
}
pub fn read(text: &[u8]) -> Result<Model, String> {
    let mut r: &[u8] = text;
    JsonReader::default().read(&mut r).map_err(|e| e.to_string())
}

// ------------------------------------------------------------------------------------------------

fn tgt(t: &str) -> J {
    ob(vec![("target", js(t))])
}
fn tgts(t: &[String]) -> J {
    J::Arr(t.iter().map(|t| tgt(t)).collect())
}
fn jtraits(t: &Traits) -> J {
    J::Obj(t.iter().map(|(k, v)| (k.clone(), v.as_ref().map(of_v).unwrap_or(J::Obj(vec![])))).collect())
}
fn jmem(m: &Mem) -> J {
    let mut o = vec![("target", js(&m.target))];
    if !m.traits.is_empty() {
        o.push(("traits", jtraits(&m.traits)));
    }
    ob(o)
}
fn jmems(ms: &BTreeMap<String, Mem>) -> J {
    J::Obj(ms.iter().map(|(k, m)| (k.clone(), jmem(m))).collect())
}
/// The JSON AST of a model, from the specification.
pub fn ast(sp: &Spec) -> J {
    let mut shapes = vec![];
    for (id, sh) in &sp.shapes {
        let mut o: Vec<(&str, J)> = vec![];
        let ty = match &sh.body {
            Body::Unresolved => "apply".to_string(),
            b => b.kind().to_string(),
        };
        o.push(("type", js(&ty)));
        match &sh.body {
            Body::List(m) | Body::Set(m) => o.push(("member", jmem(m))),
            Body::Map(k, v) => {
                o.push(("key", jmem(k)));
                o.push(("value", jmem(v)));
            }
            Body::Structure(ms) | Body::Union(ms) => o.push(("members", jmems(ms))),
            Body::Service(s) => {
                o.push(("version", js(&s.version)));
                o.push(("operations", tgts(&s.operations)));
                o.push(("resources", tgts(&s.resources)));
                o.push(("rename", J::Obj(s.renames.iter().map(|(k, v)| (k.clone(), js(v))).collect())));
            }
            Body::Operation(x) => {
                if let Some(t) = &x.input {
                    o.push(("input", tgt(t)));
                }
                if let Some(t) = &x.output {
                    o.push(("output", tgt(t)));
                }
                o.push(("errors", tgts(&x.errors)));
            }
            Body::Resource(r) => {
                o.push(("identifiers", J::Obj(r.identifiers.iter().map(|(k, v)| (k.clone(), tgt(v))).collect())));
                for (i, n) in LIFE.iter().enumerate() {
                    if let Some(t) = &r.life[i] {
                        o.push((n, tgt(t)));
                    }
                }
                o.push(("operations", tgts(&r.operations)));
                o.push(("collectionOperations", tgts(&r.collection_operations)));
                o.push(("resources", tgts(&r.resources)));
            }
            _ => {}
        }
        o.push(("traits", jtraits(&sh.traits)));
        shapes.push((id.clone(), ob(o)));
    }
    ob(vec![
        ("smithy", js("1.0")),
        ("metadata", J::Obj(sp.metadata.iter().map(|(k, v)| (k.clone(), of_v(v))).collect())),
        ("shapes", J::Obj(shapes)),
    ])
}
/// Optional parts may be left out when they are empty: take them out everywhere.
fn lean(doc: &J) -> J {
    let part = |o: &[(String, J)]| -> Vec<(String, J)> {
        o.iter()
            .filter(|(_, v)| !matches!(v, J::Arr(a) if a.is_empty()) && !matches!(v, J::Obj(a) if a.is_empty()))
            .cloned()
            .collect()
    };
    let J::Obj(top) = doc else { return doc.clone() };
    let mut out = part(top);
    for (k, v) in out.iter_mut() {
        if let ("shapes", J::Obj(shapes)) = (k.as_str(), &mut *v) {
            for (_, sh) in shapes.iter_mut() {
                if let J::Obj(s) = sh {
                    let mut s2 = part(s);
                    for (k, v) in s2.iter_mut() {
                        match (k.as_str(), &mut *v) {
                            ("members", J::Obj(ms)) => {
                                for (_, m) in ms.iter_mut() {
                                    if let J::Obj(x) = m {
                                        *m = J::Obj(part(x));
                                    }
                                }
                            }
                            ("member" | "key" | "value", J::Obj(x)) => *v = J::Obj(part(x)),
                            _ => {}
                        }
                    }
                    *sh = J::Obj(s2);
                }
            }
        }
    }
    canon(&J::Obj(out))
}

fn jdiff(path: &str, want: &J, got: &J) -> Result<(), String> {
    match (want, got) {
        (J::Obj(a), J::Obj(b)) => {
            for (k, v) in a {
                match b.iter().find(|x| &x.0 == k) {
                    None => return Err(format!("{path}/{k}: missing")),
                    Some((_, w)) => jdiff(&format!("{path}/{k}"), v, w)?,
                }
            }
            for (k, _) in b {
                if !a.iter().any(|x| &x.0 == k) {
                    return Err(format!("{path}/{k}: not in the specification's form"));
                }
            }
            Ok(())
        }
        (J::Arr(a), J::Arr(b)) if a.len() == b.len() => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                jdiff(&format!("{path}/{i}"), x, y)?;
            }
            Ok(())
        }
        (a, b) if a == b => Ok(()),
        (a, b) => Err(format!("{path}: expected {}, got {}", print(a, Style::Compact), print(b, Style::Compact))),
    }
}

// ------------------------------------------------------------------------------------------------

/// Build the model the reference describes, inserting everything in reverse order.
pub fn build_reversed(sp: &Spec) -> Model {
    REVERSE.with(|r| r.set(true));
    let m = sp.build();
    REVERSE.with(|r| r.set(false));
    m
}

pub fn roundtrip(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 6;
    c.rule = "every model of the shared family (every kind, every value tree to three nodes (four thorough) at every position, awkward strings at every textual position, extreme numbers, names that look like syntax, names that clash across namespaces, pairs of kinds, a model with everything) is written compact and pretty, read back and compared with the reference; models with two or more parts are also assembled in reverse order and under other hash seeds and must give the same bytes; non-trivial = the model has a shape".into();
    for (name, sp) in models(c.thorough) {
        c.case(&name, !sp.shapes.is_empty(), || {
            let m = sp.build();
            let want = norm(&sp);
            for pretty in [false, true] {
                let text = write(&m, pretty)?;
                let back = read(&text).map_err(|e| format!("reading back failed: {e}"))?;
                diff(&want, &norm(&Spec::observe(&back))).map_err(|e| format!("{}: {e}", if pretty { "pretty" } else { "compact" }))?;
                if write(&build_reversed(&sp), pretty)? != text {
                    return Err("the text depends on the order the model was assembled in".into());
                }
                if write(&back, pretty)? != text {
                    return Err("writing what was read gives another text".into());
                }
            }
            Ok(())
        });
    }
    // hash seeds
    let k = kitchen();
    for seed in 0..(if c.thorough { 400u64 } else { 60 }) {
        let k = &k;
        c.case(&format!("kitchen sink under hash seed {seed}"), true, || {
            let base = write(&k.build(), true)?;
            let (a, b) = with_seed(seed + 2, || (write(&k.build(), true), write(&build_reversed(k), true)));
            if a? != base || b? != base {
                return Err("the text depends on the internal order of the model".into());
            }
            Ok(())
        });
    }
}

pub fn conform(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 8;
    c.rule = "for every model of the shared family the harness derives the JSON AST document from the Smithy 1.0 specification with its own printer; the reader must read it (compact; spread out with keys reversed; every character of every string escaped) as exactly that model, and what the writer writes must be, as JSON data, that document up to empty optional parts; non-trivial = the model has a shape".into();
    for (name, sp) in super::iofam::not_finite() {
        c.case(&format!("no form: {name}"), true, || {
            for pretty in [false, true] {
                if let Ok(text) = write(&sp.build(), pretty) {
                    return Err(format!("written as {}", String::from_utf8_lossy(&text)));
                }
            }
            Ok(())
        });
    }
    for (name, sp) in models(c.thorough) {
        c.case(&name, !sp.shapes.is_empty(), || {
            let doc = ast(&sp);
            let want = norm(&sp);
            for st in [Style::Compact, Style::Wide, Style::Escaped] {
                for d in [&doc, &lean(&doc)] {
                    // `lean` canonicalises numbers for comparison; reprint floats as JSON
                    let text = print(&if std::ptr::eq(d, &doc) { d.clone() } else { refloat(d) }, st);
                    let m = read(text.as_bytes()).map_err(|e| format!("refused {text}: {e}"))?;
                    diff(&want, &norm(&Spec::observe(&m)))?;
                }
            }
            let m = sp.build();
            for pretty in [false, true] {
                let text = write(&m, pretty)?;
                let (j, _) = parse(&text).map_err(|_| format!("not JSON: {}", String::from_utf8_lossy(&text)))?;
                if dup_keys(&j) {
                    return Err("the same key twice in one object".into());
                }
                jdiff("", &lean(&doc), &lean(&j))?;
            }
            Ok(())
        });
    }
}
fn refloat(j: &J) -> J {
    match j {
        J::Num(n) => J::Num(n.trim_end_matches('f').to_string()),
        J::Arr(a) => J::Arr(a.iter().map(refloat).collect()),
        J::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), refloat(v))).collect()),
        x => x.clone(),
    }
}

// ------------------------------------------------------------------------------------------------

pub enum Verdict {
    Refuse,
    /// exactly this model
    Model(Spec),
    /// this model, or refused
    Maybe(Spec),
    Free,
}

enum Stop {
    Refuse,
    Free,
}
type R<T> = Result<T, Stop>;

struct Ref {
    lax: bool,
}
impl Ref {
    fn get<'a>(&self, o: &'a [(String, J)], k: &str) -> Option<&'a J> {
        o.iter().find(|x| x.0 == k).map(|x| &x.1)
    }
    fn obj<'a>(&self, j: &'a J) -> R<&'a [(String, J)]> {
        match j {
            J::Obj(o) => Ok(o),
            _ => Err(Stop::Refuse),
        }
    }
    fn only(&mut self, o: &[(String, J)], keys: &[&str]) {
        if o.iter().any(|(k, _)| !keys.contains(&k.as_str())) {
            self.lax = true;
        }
    }
    fn unique(&self, o: &[(String, J)]) -> R<()> {
        let mut k: Vec<String> = o.iter().map(|x| x.0.to_lowercase()).collect();
        k.sort();
        if k.windows(2).any(|w| w[0] == w[1]) {
            // two keys that are the same id: one value would have to go
            return Err(Stop::Refuse);
        }
        Ok(())
    }
    fn id(&self, t: &str) -> R<String> {
        match ref_shape_id(t) {
            None => Err(Stop::Refuse),
            Some((_, _, Some(_))) => Err(Stop::Free),
            Some(_) => Ok(t.to_string()),
        }
    }
    fn ident(&self, t: &str) -> R<String> {
        if ref_identifier(t) {
            Ok(t.to_string())
        } else {
            Err(Stop::Refuse)
        }
    }
    fn str(&self, j: &J) -> R<String> {
        match j {
            J::Str(s) => Ok(s.clone()),
            _ => Err(Stop::Refuse),
        }
    }
    fn target(&mut self, j: &J) -> R<String> {
        let o = self.obj(j)?;
        self.only(o, &["target"]);
        self.id(&self.str(self.get(o, "target").ok_or(Stop::Refuse)?)?)
    }
    fn opt(&mut self, o: &[(String, J)], k: &str) -> R<Option<String>> {
        self.get(o, k).cloned().map(|j| self.target(&j)).transpose()
    }
    fn list(&mut self, o: &[(String, J)], k: &str) -> R<Vec<String>> {
        match self.get(o, k) {
            None => Ok(vec![]),
            Some(J::Arr(a)) => a.clone().iter().map(|j| self.target(j)).collect(),
            Some(_) => Err(Stop::Refuse),
        }
    }
    fn traits(&mut self, o: &[(String, J)]) -> R<Traits> {
        let mut t = Traits::new();
        if let Some(j) = self.get(o, "traits") {
            let ts = self.obj(j)?;
            self.unique(ts)?;
            for (k, v) in ts {
                t.insert(self.id(k)?, Some(to_v(v).map_err(|_| Stop::Free)?));
            }
        }
        Ok(t)
    }
    fn mem(&mut self, name: &str, j: &J) -> R<Mem> {
        let o = self.obj(j)?;
        self.only(o, &["target", "traits"]);
        let target = self.id(&self.str(self.get(o, "target").ok_or(Stop::Refuse)?)?)?;
        Ok(Mem { name: self.ident(name)?, target, traits: self.traits(o)? })
    }
    fn members(&mut self, o: &[(String, J)]) -> R<BTreeMap<String, Mem>> {
        let mut out = BTreeMap::new();
        if let Some(j) = self.get(o, "members") {
            let ms = self.obj(j)?;
            self.unique(ms)?;
            for (k, v) in ms {
                out.insert(k.clone(), self.mem(k, v)?);
            }
        }
        Ok(out)
    }
    fn shape(&mut self, j: &J) -> R<Shape> {
        let o = self.obj(j)?;
        let ty = self.str(self.get(o, "type").ok_or(Stop::Refuse)?)?;
        let need = |me: &mut Self, k: &str| -> R<Mem> {
            let j = me.get(o, k).ok_or(Stop::Refuse)?.clone();
            me.mem(k, &j)
        };
        let mut keys = vec!["type", "traits"];
        let body = match ty.as_str() {
            "apply" => Body::Unresolved,
            s if SIMPLE.contains(&s) => Body::Simple(s.to_string()),
            "list" | "set" => {
                keys.push("member");
                let m = need(self, "member")?;
                if ty == "list" { Body::List(m) } else { Body::Set(m) }
            }
            "map" => {
                keys.extend(["key", "value"]);
                Body::Map(need(self, "key")?, need(self, "value")?)
            }
            "structure" => {
                keys.push("members");
                Body::Structure(self.members(o)?)
            }
            "union" => {
                keys.push("members");
                Body::Union(self.members(o)?)
            }
            "service" => {
                keys.extend(["version", "operations", "resources", "rename"]);
                let version = self.str(self.get(o, "version").ok_or(Stop::Refuse)?)?;
                if version.is_empty() {
                    return Err(Stop::Refuse);
                }
                let mut renames = BTreeMap::new();
                if let Some(r) = self.get(o, "rename") {
                    let r = self.obj(r)?;
                    self.unique(r)?;
                    for (k, v) in r {
                        renames.insert(self.id(k)?, self.ident(&self.str(v)?)?);
                    }
                }
                Body::Service(Svc { version, operations: self.list(o, "operations")?, resources: self.list(o, "resources")?, renames })
            }
            "operation" => {
                keys.extend(["input", "output", "errors"]);
                Body::Operation(Op { input: self.opt(o, "input")?, output: self.opt(o, "output")?, errors: self.list(o, "errors")? })
            }
            "resource" => {
                keys.extend(["identifiers", "operations", "collectionOperations", "resources"]);
                keys.extend(LIFE);
                let mut identifiers = BTreeMap::new();
                if let Some(r) = self.get(o, "identifiers") {
                    let r = self.obj(r)?;
                    self.unique(r)?;
                    for (k, v) in r {
                        identifiers.insert(self.ident(k)?, self.target(v)?);
                    }
                }
                let mut life: [Option<String>; 6] = Default::default();
                for (i, n) in LIFE.iter().enumerate() {
                    life[i] = self.opt(o, n)?;
                }
                Body::Resource(Res { identifiers, life, operations: self.list(o, "operations")?, collection_operations: self.list(o, "collectionOperations")?, resources: self.list(o, "resources")? })
            }
            _ => return Err(Stop::Refuse),
        };
        self.only(o, &keys);
        Ok(Shape { traits: self.traits(o)?, body })
    }
    fn model(&mut self, j: &J) -> R<Spec> {
        let o = self.obj(j)?;
        match self.str(self.get(o, "smithy").ok_or(Stop::Refuse)?)?.as_str() {
            "1.0" => {}
            "1" => self.lax = true,
            _ => return Err(Stop::Refuse),
        }
        self.only(o, &["smithy", "metadata", "shapes"]);
        let mut sp = Spec::default();
        // a fixed order of visiting does not matter: any refusal refuses; `Free` only when nothing refuses
        let mut free = false;
        if let Some(m) = self.get(o, "metadata") {
            for (k, v) in self.obj(m)? {
                match to_v(v) {
                    Ok(v) => {
                        sp.metadata.insert(k.clone(), v);
                    }
                    Err(_) => free = true,
                }
            }
        }
        match self.get(o, "shapes") {
            None => self.lax = true,
            Some(m) => {
                let m = self.obj(m)?;
                free |= self.unique(m).is_err();
                for (k, v) in m {
                    let id = self.id(k);
                    match (id, self.shape(v)) {
                        (Err(Stop::Refuse), _) | (_, Err(Stop::Refuse)) => return Err(Stop::Refuse),
                        (Ok(id), Ok(sh)) => {
                            sp.shapes.insert(id, sh);
                        }
                        _ => free = true,
                    }
                }
            }
        }
        if free {
            Err(Stop::Free)
        } else {
            Ok(sp)
        }
    }
}

/// What reading this text must give.
pub fn decide(text: &[u8]) -> Verdict {
    let Ok((j, depth)) = parse(text) else {
        // nested deeper than any limit: only termination is judged
        return Verdict::Refuse;
    };
    if depth > 100 || dup_keys(&j) {
        return Verdict::Free;
    }
    let mut r = Ref { lax: false };
    match r.model(&j) {
        Ok(sp) if r.lax => Verdict::Maybe(sp),
        Ok(sp) => Verdict::Model(sp),
        Err(Stop::Refuse) => Verdict::Refuse,
        Err(Stop::Free) => Verdict::Free,
    }
}

pub fn judge(text: &[u8]) -> Result<&'static str, String> {
    let got = crate::kit::run::silent(|| read(text))?;
    match (decide(text), got) {
        (Verdict::Refuse, Ok(m)) => Err(format!("accepted as {}", Spec::observe(&m).show())),
        (Verdict::Refuse, Err(_)) => Ok("refused"),
        (Verdict::Model(sp), Ok(m)) => diff(&norm(&sp), &norm(&Spec::observe(&m))).map(|_| "accepted"),
        (Verdict::Model(_), Err(e)) => Err(format!("refused: {e}")),
        (Verdict::Maybe(sp), Ok(m)) => diff(&norm(&sp), &norm(&Spec::observe(&m))).map(|_| "accepted with extras"),
        (Verdict::Maybe(_), Err(_)) => Ok("refused with extras"),
        (Verdict::Free, _) => Ok("either"),
    }
}

fn bases() -> Vec<(&'static str, J)> {
    let kinds = |ns: &str| {
        let mut sp = Spec::default();
        let t = |s: &str| format!("{ns}#{s}");
        let tr = traits(&[("smithy.api#documentation", Some(s("d"))), ("a#t", Some(obj(&[("x", V::Arr(vec![V::Int(1), V::None]))])))]);
        let mm = |n: &str, x: &str| Mem { name: n.into(), target: t(x), traits: tr.clone() };
        let mut put = |n: &str, b: Body| {
            sp.shapes.insert(t(n), Shape { traits: tr.clone(), body: b });
        };
        put("Str", Body::Simple("string".into()));
        put("L", Body::List(mm("member", "Str")));
        put("St", Body::Set(mm("member", "Str")));
        put("M", Body::Map(mm("key", "Str"), mm("value", "L")));
        put("S", Body::Structure(crate::kit::gen::st(&[mm("m", "Str"), mm("n", "M")])));
        put("U", Body::Union(crate::kit::gen::st(&[mm("m", "Str")])));
        put("V", Body::Service(Svc { version: "1".into(), operations: vec![t("O")], resources: vec![t("R")], renames: BTreeMap::from([(t("S"), "S2".to_string())]) }));
        put("O", Body::Operation(Op { input: Some(t("S")), output: Some(t("S")), errors: vec![t("S")] }));
        put("R", Body::Resource(Res { identifiers: BTreeMap::from([("id".to_string(), t("Str"))]), life: std::array::from_fn(|_| Some(t("O"))), operations: vec![t("O")], collection_operations: vec![t("O")], resources: vec![t("R")] }));
        put("X", Body::Unresolved);
        sp.metadata.insert("k".into(), obj(&[("a", V::Arr(vec![V::Float(F(1.5)), V::Bool(true)]))]));
        sp
    };
    let all = kinds("a");
    let mut out = vec![("all", ast(&all))];
    for (n, k) in [("string", "Str"), ("list", "L"), ("map", "M"), ("structure", "S"), ("service", "V"), ("operation", "O"), ("resource", "R"), ("apply", "X")] {
        let mut sp = Spec::default();
        sp.shapes.insert(format!("a#{k}"), all.shapes[&format!("a#{k}")].clone());
        out.push((n, ast(&sp)));
    }
    out
}

/// All documents one mutation away.
fn mutants(j: &J, pool: &[J], keys: &[&str]) -> Vec<(String, J)> {
    let mut out: Vec<(String, J)> = vec![];
    for p in pool {
        if p != j {
            out.push((format!(" := {}", print(p, Style::Compact)), p.clone()));
        }
    }
    match j {
        J::Arr(a) => {
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push((format!("/{i} deleted"), J::Arr(b)));
                for (w, x) in mutants(&a[i], pool, keys) {
                    let mut b = a.clone();
                    b[i] = x;
                    out.push((format!("/{i}{w}"), J::Arr(b)));
                }
            }
            let mut b = a.clone();
            if let Some(x) = a.first() {
                b.push(x.clone());
                out.push((" first repeated".into(), J::Arr(b)));
            }
        }
        J::Obj(o) => {
            for i in 0..o.len() {
                let k = &o[i].0;
                let mut b = o.clone();
                b.remove(i);
                out.push((format!("/{k} deleted"), J::Obj(b)));
                let mut b = o.clone();
                b.push(o[i].clone());
                out.push((format!("/{k} repeated"), J::Obj(b)));
                for (w, t) in [("upper", k.to_uppercase()), ("lower", k.to_lowercase())] {
                    for at in [0, o.len()] {
                        let mut b = o.clone();
                        b.insert(at, (t.clone(), o[i].1.clone()));
                        out.push((format!("/{k} also in {w} case at {at}"), J::Obj(b)));
                    }
                }
                for nk in keys {
                    let mut b = o.clone();
                    b[i].0 = nk.to_string();
                    out.push((format!("/{k} renamed {nk:?}"), J::Obj(b)));
                }
                for (w, x) in mutants(&o[i].1, pool, keys) {
                    let mut b = o.clone();
                    b[i].1 = x;
                    out.push((format!("/{k}{w}"), J::Obj(b)));
                }
            }
            let mut b = o.clone();
            b.push(("extra".into(), J::Num("1".into())));
            out.push((" extra key".into(), J::Obj(b)));
        }
        _ => {}
    }
    out
}

pub fn total(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 1;
    c.rule = "base documents with every kind of shape, each node replaced by each of a pool of 26 JSON data, deleted, repeated, repeated under its key in other letter case, or its key renamed (pairs of such changes thorough); every prefix of the documents; every byte of them replaced by or extended with each of 16 bytes; every text of up to five (six thorough) tokens; nesting to 100000; each judged by an independent strict reader (refuse, or exactly this model); standard output must stay empty; non-trivial = the text is JSON".into();
    let n = |x: &str| J::Num(x.into());
    let pool = vec![
        J::Null, J::Bool(true), J::Bool(false), n("0"), n("-1"), n("1.5"), n("1e3"), n("9223372036854775807"), n("9223372036854775808"), n("18446744073709551615"), n("18446744073709551616"), n("-9223372036854775809"), n("1e400"),
        js(""), js("x"), js("a#B"), js("a#B$c"), js("1.0"), js("string"), js("list"), js("apply"), js("é#Ü"), J::Arr(vec![]), J::Obj(vec![]), J::Arr(vec![J::Null]), ob(vec![("target", js("b#T"))]),
    ];
    let keys = ["", "x", "a#B", "a#B$c", "b", "type", "target", "traits", "member", "members", "smithy", "shapes", "#", "a-b", "1a"];
    let bs = bases();
    for (b, j) in &bs {
        for (w, m) in mutants(j, &pool, &keys) {
            let text = print(&m, Style::Compact);
            c.case_o(&format!("{b}{w}"), true, || judge(text.as_bytes()));
            if c.thorough && *b != "all" {
                for (w2, m2) in mutants(&m, &pool[..8], &keys[..4]) {
                    let text = print(&m2, Style::Compact);
                    c.case_o(&format!("{b}{w}; {w2}"), true, || judge(text.as_bytes()));
                }
            }
        }
        let text = print(j, Style::Compact).into_bytes();
        for i in 0..=text.len() {
            c.case_o(&format!("{b} cut at {i}"), false, || judge(&text[..i]));
            for (bi, x) in [b'"', b'\\', b'{', b'}', b'[', b']', b',', b':', b'0', b'-', b' ', b'a', b'#', 0u8, 0xff, 0xc3].iter().enumerate() {
                if *b == "all" && !c.thorough && (i + bi) % 4 != 0 {
                    continue;
                }
                let mut t = text.clone();
                if i < t.len() {
                    t[i] = *x;
                    c.case_o(&format!("{b} byte {i} := {x:#x}"), false, || judge(&t));
                }
                let mut t = text.clone();
                t.insert(i, *x);
                c.case_o(&format!("{b} byte {x:#x} put before {i}"), false, || judge(&t));
            }
        }
    }
    // short texts
    let toks = ["{", "}", "[", "]", ":", ",", "\"smithy\"", "\"1.0\"", "\"shapes\"", "\"metadata\"", "null", "1", " "];
    for t in strings(&toks, if c.thorough { 6 } else { 5 }) {
        c.case_o(&format!("text {t}"), t.contains('{'), || judge(t.as_bytes()));
    }
    for d in [2usize, 10, 50, 90, 126, 127, 128, 129, 200, 1000, 10_000, 100_000] {
        for (o, cl) in [("[", "]"), ("{\"a\":", "}")] {
            let deep = format!("{}1{}", o.repeat(d), cl.repeat(d));
            let cases = [
                ("top", deep.clone()),
                ("open", o.repeat(d)),
                ("metadata", format!("{{\"smithy\":\"1.0\",\"metadata\":{{\"k\":{deep}}}}}")),
                ("trait", format!("{{\"smithy\":\"1.0\",\"shapes\":{{\"a#S\":{{\"type\":\"string\",\"traits\":{{\"a#t\":{deep}}}}}}}}}")),
            ];
            for (w, t) in cases {
                c.case_o(&format!("nesting {d} of {o} in {w}"), true, || {
                    if d > 100 {
                        crate::kit::run::silent(|| read(t.as_bytes()).map(drop))?.map_or(Ok("refused"), |_| Ok("accepted"))
                    } else {
                        judge(t.as_bytes())
                    }
                });
            }
        }
    }
}
