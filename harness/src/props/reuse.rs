//! C35: equality of models, shapes and values. C36: nothing is kept between uses.
use super::assembly::{as_idl, as_json};
use super::fam::*;
use super::iofam::*;
use super::json::build_reversed;
use super::merging::decorate;
use crate::kit::gen::*;
use crate::kit::order::with_seed;
use crate::kit::run::{guard, silent, Ctx};
use crate::kit::spec::*;
use atelier_core::action::lint::{NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Action, Linter, Validator};
use atelier_core::io::debug::DebugWriter;
use atelier_core::io::lines::LineOrientedWriter;
use atelier_core::io::*;
use atelier_core::model::{Model, NamespaceID};
use atelier_describe::document::writer::DocumentationWriter;
use atelier_describe::graphml::writer::GraphMLWriter;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_json::{JsonReader, JsonWriter};
use atelier_rdf::writer::RdfWriter;
use atelier_smithy::{SmithyReader, SmithyWriter};
use std::collections::BTreeMap;

// ---------------------------------------------------------------------------------------- C35

fn map_v(v: &V) -> V {
    match v {
        V::Float(f) if f.0 == 0.0 => V::Float(F(0.0)),
        V::Arr(a) => V::Arr(a.iter().map(map_v).collect()),
        V::Obj(o) => V::Obj(o.iter().map(|(k, v)| (k.clone(), map_v(v))).collect()),
        v => v.clone(),
    }
}
/// `sp` with every id and identifier put through `f`.
pub fn map_ids(sp: &Spec, f: &mut dyn FnMut(&str) -> String) -> Spec {
    fn tr(t: &Traits, f: &mut dyn FnMut(&str) -> String) -> Traits {
        t.iter().map(|(k, v)| (f(k), v.as_ref().map(map_v))).collect()
    }
    fn mm(m: &Mem, f: &mut dyn FnMut(&str) -> String) -> Mem {
        Mem { name: f(&m.name), target: f(&m.target), traits: tr(&m.traits, f) }
    }
    fn ms(m: &BTreeMap<String, Mem>, f: &mut dyn FnMut(&str) -> String) -> BTreeMap<String, Mem> {
        m.values().map(|m| { let m = mm(m, f); (m.name.clone(), m) }).collect()
    }
    fn mp(m: &BTreeMap<String, String>, f: &mut dyn FnMut(&str) -> String) -> BTreeMap<String, String> {
        m.iter().map(|(k, v)| (f(k), f(v))).collect()
    }
    fn ls(m: &[String], f: &mut dyn FnMut(&str) -> String) -> Vec<String> {
        m.iter().map(|k| f(k)).collect()
    }
    let mut out = Spec { metadata: sp.metadata.iter().map(|(k, v)| (k.clone(), map_v(v))).collect(), ..Default::default() };
    for (id, sh) in &sp.shapes {
        let body = match &sh.body {
            // the member names of lists, sets and maps are fixed
            Body::List(m) => Body::List(Mem { name: m.name.clone(), ..mm(m, f) }),
            Body::Set(m) => Body::Set(Mem { name: m.name.clone(), ..mm(m, f) }),
            Body::Map(k, v) => Body::Map(Mem { name: k.name.clone(), ..mm(k, f) }, Mem { name: v.name.clone(), ..mm(v, f) }),
            Body::Structure(m) => Body::Structure(ms(m, f)),
            Body::Union(m) => Body::Union(ms(m, f)),
            Body::Service(s) => Body::Service(Svc { version: s.version.clone(), operations: ls(&s.operations, f), resources: ls(&s.resources, f), renames: mp(&s.renames, f) }),
            Body::Operation(o) => Body::Operation(Op { input: o.input.as_ref().map(|x| f(x)), output: o.output.as_ref().map(|x| f(x)), errors: ls(&o.errors, f) }),
            Body::Resource(r) => Body::Resource(Res {
                identifiers: mp(&r.identifiers, f),
                life: std::array::from_fn(|i| r.life[i].as_ref().map(|x| f(x))),
                operations: ls(&r.operations, f),
                collection_operations: ls(&r.collection_operations, f),
                resources: ls(&r.resources, f),
            }),
            b => b.clone(),
        };
        out.shapes.insert(f(id), Shape { traits: tr(&sh.traits, f), body });
    }
    out
}
pub fn lower(sp: &Spec) -> Spec {
    map_ids(sp, &mut |s| s.to_lowercase())
}
fn same(want: bool, a: &Model, b: &Model) -> Result<(), String> {
    for (x, y, way) in [(a, b, ""), (b, a, ", the other way round")] {
        if (x == y) != want {
            return Err(format!("models of {} content are {}equal{way}", if want { "the same" } else { "different" }, if x == y { "" } else { "not " }));
        }
        #[allow(clippy::nonminimal_bool)]
        if (x != y) == want {
            return Err("!= is not the opposite of ==".into());
        }
    }
    for (id, s) in a.shapes().map(|s| (s.id(), s)) {
        if let Some(t) = b.shape(id) {
            if want && !(s == t) {
                return Err(format!("the shapes {id} are not equal"));
            }
        }
    }
    Ok(())
}

use atelier_core::model::HasIdentity;

pub fn equality(c: &mut Ctx) {
    let thorough = c.thorough;
    c.level = "model_checking";
    c.per_case = 2;
    c.rule = "every model of the shared families against its copy, itself built in another order and under another hash seed, and against every other model of the family; every change of one detail of twelve rich models against the original and against the changes of the same model; every id of them written in the other letter case; every pair of 270 bodies, with and without traits; every pair of values: equal exactly when the contents are (letter case of ids and the sign of zero apart), both ways round; non-trivial = the contents differ".into();
    let fam: Vec<(String, Spec)> = models(c.thorough);
    let low: Vec<Spec> = fam.iter().map(|(_, s)| lower(s)).collect();
    let built: Vec<Model> = fam.iter().map(|(_, s)| s.build()).collect();
    for (i, (name, sp)) in fam.iter().enumerate() {
        c.case_o(&format!("itself: {name}"), false, || {
            let m = &built[i];
            same(true, m, &m.clone())?;
            same(true, m, &build_reversed(sp))?;
            with_seed(5, || same(true, m, &sp.build()))?;
            Ok("equal")
        });
        let mut n = 0;
        c.case_o(&format!("others: {name}"), true, || {
            for j in i + 1..fam.len() {
                let want = low[i] == low[j];
                n += 1;
                if (built[i] == built[j]) != want || (built[j] == built[i]) != want {
                    return Err(format!("{} and {}: contents the same: {want}, but equal: {}", fam[i].1.show(), fam[j].1.show(), built[i] == built[j]));
                }
            }
            Ok("told from all others")
        });
        c.transitions += n;
    }
    for (k, base) in rich().iter().enumerate() {
        let b = base.build();
        let lb = lower(base);
        let ns = neighbours(base);
        let mods: Vec<(Spec, Model)> = ns.iter().map(|(_, s)| (lower(s), s.build())).collect();
        for (i, (what, sp)) in ns.iter().enumerate() {
            let want = mods[i].0 == lb;
            let mut n = 0;
            c.case_o(&format!("rich {k}: {what}"), !want, || {
                same(want, &b, &mods[i].1)?;
                same(want, &b, &build_reversed(sp))?;
                if k > 0 || thorough {
                    for j in i + 1..ns.len() {
                        n += 1;
                        let want = mods[i].0 == mods[j].0;
                        if (mods[i].1 == mods[j].1) != want {
                            return Err(format!("against {}: contents the same: {want}", ns[j].0));
                        }
                    }
                }
                Ok(if want { "equal" } else { "different" })
            });
            c.transitions += n;
        }
        // every id in the other letter case
        let mut ids = 0;
        map_ids(base, &mut |s| { ids += 1; s.to_string() });
        for i in 0..ids {
            let mut n = 0;
            let sp = map_ids(base, &mut |s| {
                n += 1;
                if n == i + 1 { s.chars().map(|c| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect() } else { s.to_string() }
            });
            if sp.shapes.len() != base.shapes.len() || lower(&sp) != lb {
                continue; // two things became one
            }
            c.case_o(&format!("rich {k}: id {i} in the other case"), true, || {
                same(true, &b, &sp.build())?;
                Ok("equal but for case")
            });
        }
    }
    let mut bodies: Vec<(Spec, Model)> = vec![];
    for b in body_variants() {
        for d in [Shape { traits: Traits::new(), body: b.clone() }, decorate(&b, "a#t", Some(V::Int(1))), decorate(&b, "a#t", None)] {
            let mut sp = Spec::default();
            sp.shapes.insert("a#S".into(), d);
            let m = sp.build();
            bodies.push((sp, m));
        }
    }
    for (i, (sp, m)) in bodies.iter().enumerate() {
        c.case_o(&format!("body {i}: {}", sp.show()), true, || {
            for (sq, n) in &bodies {
                let want = sp == sq;
                if (m == n) != want {
                    return Err(format!("and {}: contents the same: {want}", sq.show()));
                }
                let (x, y) = (m.shapes().next().unwrap(), n.shapes().next().unwrap());
                if (x == y) != want {
                    return Err(format!("the shape and that of {}: contents the same: {want}", sq.show()));
                }
                let wb = sp.shapes["a#S"].body == sq.shapes["a#S"].body;
                if (x.body() == y.body()) != wb {
                    return Err(format!("the body and that of {}: contents the same: {wb}", sq.show()));
                }
            }
            Ok("told from all others")
        });
    }
    let mut vals = trees(if c.thorough { 4 } else { 3 });
    vals.extend(ints().into_iter().map(V::Int));
    vals.extend(floats().into_iter().map(|f| V::Float(F(f))));
    vals.extend(awkward(false).into_iter().map(V::Str));
    vals.extend(value_pool());
    let key: Vec<V> = vals.iter().map(map_v).collect();
    let real: Vec<_> = vals.iter().map(v_to).collect();
    for i in 0..vals.len() {
        c.case_o(&format!("value {i} {}", show_v(&vals[i])), true, || {
            if real[i].clone() != real[i] {
                return Err("not equal to its copy".into());
            }
            for j in 0..vals.len() {
                if (real[i] == real[j]) != (key[i] == key[j]) {
                    return Err(format!("and {}: equal: {}", show_v(&vals[j]), real[i] == real[j]));
                }
            }
            Ok("told from all others")
        });
    }
}

// ---------------------------------------------------------------------------------------- C36

type Answer = Result<String, String>;
/// A destination that fails after so many bytes.
struct Short(Vec<u8>, usize);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() + b.len() > self.1 {
            return Err(std::io::Error::from_raw_os_error(28));
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn put(w: &mut impl ModelWriter, m: &Model, limit: usize) -> Answer {
    guard(|| silent(|| {
        let mut d = Short(vec![], limit);
        let r = w.write(&mut d, m);
        match r {
            Ok(()) => Ok(String::from_utf8_lossy(&d.0).into_owned()),
            Err(e) => Err(e.to_string()),
        }
    }))?
    .and_then(|r| r)
}
fn get(r: &mut impl ModelReader, t: &[u8]) -> Answer {
    guard(|| silent(|| {
        let mut t = t;
        r.read(&mut t).map(|m| Spec::observe(&m).show()).map_err(|e| e.to_string())
    }))?
    .and_then(|r| r)
}
/// Are the answers the same? Differences in the order of things and the names of blank nodes are nobody's
/// promise; where `by_line`, each line must still say the same.
fn like(fresh: &Answer, got: &Answer, by_line: bool) -> Result<(), String> {
    fn norm(s: &str) -> Vec<char> {
        let mut o: Vec<char> = vec![];
        let mut rest = s;
        while let Some(i) = rest.find("_:") {
            o.extend(rest[..i].chars());
            rest = rest[i + 2..].trim_start_matches(|c: char| c.is_ascii_alphanumeric());
        }
        o.extend(rest.chars());
        o.retain(|c| !c.is_whitespace() && !";,.[]".contains(*c));
        o.sort_unstable();
        o
    }
    fn lines(s: &str) -> Vec<Vec<&str>> {
        let mut v: Vec<Vec<&str>> = s
            .lines()
            .map(|l| {
                let mut w: Vec<&str> = l.split(|c: char| c.is_whitespace() || "()[]{},;:\"".contains(c)).filter(|w| !w.is_empty()).collect();
                w.sort_unstable();
                w
            })
            .collect();
        v.sort();
        v
    }
    let ok = match (fresh, got) {
        (Ok(a), Ok(g)) => a == g || (norm(a) == norm(g) && (!by_line || lines(a) == lines(g))),
        // which of several faults is reported is nobody's promise
        (Err(_), Err(_)) => true,
        _ => false,
    };
    if ok {
        return Ok(());
    }
    Err(format!("a fresh one gives {fresh:?}, this one {got:?}"))
}

/// Every sequence up to a length; every two in turn, twenty times; and every walk around the table with
/// a fixed stride.
fn walks(n: usize, depth: usize) -> Vec<(String, Vec<usize>)> {
    let mut v: Vec<(String, Vec<usize>)> = sequences(n, depth).into_iter().filter(|w| !w.is_empty()).map(|w| (format!("{w:?}"), w)).collect();
    for i in 0..n {
        for j in i..n {
            v.push((format!("20 x [{i}, {j}]"), (0..40).map(|k| if k % 2 == 0 { i } else { j }).collect()));
        }
    }
    for stride in 1..n {
        v.push((format!("100 by {stride}"), (0..100).map(|k| (k * stride + k / n) % n).collect()));
    }
    v
}

fn by_line(name: &str) -> bool {
    ["pretty", "smithy", "lines", "uml"].iter().any(|n| name.starts_with(n))
}
macro_rules! writers {
    ($c:expr, $models:expr, $depth:expr, $($name:expr => $new:expr;)*) => {
        $(
            // a write that fails after so many bytes, then any other
            for (i, a) in $models.iter().enumerate() {
                for limit in (0..40).chain((40..400).step_by(7)).chain((400..3000).step_by(101)) {
                    $c.case_o(&format!("writer {}: {i} fails after {limit} bytes", $name), true, || with_seed(3, || {
                        let first = a.build();
                        for (k, sp) in $models.iter().enumerate() {
                            let m = sp.build();
                            let mut used = $new;
                            let r = put(&mut used, &first, limit);
                            let fresh = put(&mut $new, &m, usize::MAX);
                            like(&fresh, &put(&mut used, &m, usize::MAX), by_line($name)).map_err(|e| format!("model {k} after {r:?}: {e}"))?;
                        }
                        Ok("as fresh ones")
                    }));
                }
            }
            for (name, w) in walks($models.len() * 2, $depth) {
                let label = format!("writer {}: {name}", $name);
                let models = &$models;
                $c.case_o(&label, w.len() > 1, || with_seed(3, || {
                    let mut used = $new;
                    for i in &w {
                        let (sp, m) = (&models[i / 2], models[i / 2].build());
                        let limit = if i % 2 == 1 { 20 } else { usize::MAX };
                        let fresh = put(&mut $new, &m, limit);
                        like(&fresh, &put(&mut used, &m, limit), by_line($name)).map_err(|e| format!("model {}: {e}", i / 2))?;
                        diff(sp, &Spec::observe(&m)).map_err(|e| format!("writing changed the model: {e}"))?;
                    }
                    Ok("as fresh ones")
                }));
            }
        )*
    };
}

fn pool() -> Vec<Spec> {
    let mut v = vec![Spec::default()];
    let mut one = Spec::default();
    one.metadata.insert("k".into(), V::Arr(vec![V::Int(1)]));
    one.shapes.insert("a#S".into(), Shape { traits: traits(&[("a#BadTrait", Some(V::Int(1))), ("smithy.api#required", None)]), body: Body::Structure(st(&[mem("m", "a#S"), mem("BadBlacklist", "smithy.api#String")])) });
    v.push(one.clone());
    // the same names with other content
    let mut two = Spec::default();
    two.metadata.insert("k".into(), s("x"));
    two.shapes.insert("a#S".into(), Shape { traits: traits(&[("b#t", None)]), body: Body::Service(Svc { version: "2".into(), operations: strs(&["a#Op"]), resources: strs(&["a#S"]), renames: smap(&[("b#X", "Y")]) }) });
    two = two.with("a#Op", op3(Some("a#S"), Some("a#Gone"), &["a#masterPlan"]));
    v.push(two);
    let mut three = Spec::default().with("b.c#badName", Body::Map(mem("key", "smithy.api#String"), mem("value", "b.c#Res")));
    three = three.with("b.c#Res", Body::Resource(Res { identifiers: smap(&[("i", "b.c#Id")]), life: std::array::from_fn(|i| (i % 2 == 0).then(|| format!("a#L{i}"))), resources: strs(&["b.c#Res"]), ..Default::default() }));
    three.shapes.insert("a#S".into(), Shape { traits: traits(&[("a#t", None)]), body: Body::Unresolved });
    v.push(three);
    v
}

fn issues(a: &mut dyn Action) -> Vec<String> {
    // where a name occurs several times, any of the places may be named
    let mut v: Vec<String> = a.issues().iter().map(|i| if i.reporter() == "UnwelcomeTerms" { format!("{} {}", i.level(), i.message()) } else { i.to_string() }).collect();
    v.sort();
    v
}

pub fn reuse(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 3;
    c.rule = "every sequence of up to three (four thorough) uses, every two in turn twenty times and every walk of a hundred with a fixed stride, of one reader, over good, empty, malformed and contradicting documents; of one writer of each of eleven kinds, over four models and destinations that do or do not take the document, and after a write that fails after any of many numbers of bytes; of both readers and five writers over rich models too; of one validator or linter over eight models: every use gives what a fresh object gives (issues add up), and writing, checking and describing leave the model as it was; state = objects used so far, transition = one use; non-trivial = at least two uses".into();
    let n = if c.thorough { 4 } else { 3 };
    // readers
    let specs = pool();
    let single: Vec<Spec> = specs.iter().enumerate().map(|(i, s)| if i == 3 { specs[2].clone() } else { s.clone() }).collect();
    let mut idl: Vec<Vec<u8>> = single.iter().map(|s| as_idl(s, "a").into_bytes()).collect();
    let mut json: Vec<Vec<u8>> = specs.iter().map(|s| as_json(s).into_bytes()).collect();
    for t in ["", "namespace a\nuse b#T\nstructure S { m: T }\n@x string T2\n", "namespace b\nstring S\nmetadata k = [2]\nmetadata k = [3]\n", "$version: \"1.0\"\nnamespace c\nstring T\nstructure S { m: T", "namespace a\nstring S\ninteger S\n", "metadata k = 1\nmetadata k = 2\n", "/// doc\n", "namespace a\napply S @t(1)\n"] {
        idl.push(t.as_bytes().to_vec());
    }
    for t in ["", "{", "{\"smithy\": \"1.0\", \"metadata\": {\"k\": 1}}", "{\"smithy\": \"2.0\"}", "{\"smithy\": \"1.0\", \"shapes\": {\"a#S\": {\"type\": \"string\", \"traits\": {\"a#t\": 1}}, \"b\": {}}}", "{\"smithy\": \"1.0\", \"shapes\": {\"a#S\": {\"type\": \"apply\", \"traits\": {\"a#u\": [1]}}}}"] {
        json.push(t.as_bytes().to_vec());
    }
    idl.push(vec![0x6e, 0xff]);
    json.push(vec![0x7b, 0xff]);
    for (format, docs) in [("smithy", &idl), ("json", &json)] {
        for (name, w) in walks(docs.len(), n) {
            c.case_o(&format!("reader {format}: {name}"), w.len() > 1, || {
                let (mut si, mut js) = (SmithyReader::default(), JsonReader::default());
                for i in &w {
                    let t = &docs[*i];
                    let one = |r: &mut dyn FnMut(&[u8]) -> Answer| r(t);
                    let (fresh, got) = if format == "smithy" {
                        (get(&mut SmithyReader::default(), t), one(&mut |t| get(&mut si, t)))
                    } else {
                        (get(&mut JsonReader::default(), t), one(&mut |t| get(&mut js, t)))
                    };
                    like(&fresh, &got, false).map_err(|e| format!("document {i}: {e}"))?;
                }
                Ok("as fresh ones")
            });
        }
    }
    writers! { c, specs, n - 1,
        "json" => JsonWriter::new(false);
        "pretty json" => JsonWriter::new(true);
        "smithy a" => SmithyWriter::new(NamespaceID::new_unchecked("a"));
        "smithy b.c" => SmithyWriter::new(NamespaceID::new_unchecked("b.c"));
        "lines" => LineOrientedWriter::default();
        "graphml" => GraphMLWriter::default();
        "uml" => PlantUmlWriter::new(false);
        "uml expanded" => PlantUmlWriter::new(true);
        "documentation" => DocumentationWriter::default();
        "rdf" => RdfWriter::default();
        "debug" => DebugWriter::default();
    }
    // large and rich models, and what they are written as, one after the other
    let many: Vec<Spec> = rich().into_iter().map(|s| norm(&s)).chain(specs.iter().cloned()).collect();
    writers! { c, many, 1,
        "json of rich" => JsonWriter::new(false);
        "smithy a of rich" => SmithyWriter::new(NamespaceID::new_unchecked("a"));
        "lines of rich" => LineOrientedWriter::default();
        "graphml of rich" => GraphMLWriter::default();
        "uml of rich" => PlantUmlWriter::new(true);
    }
    let (jd, sd): (Vec<Vec<u8>>, Vec<Vec<u8>>) = many
        .iter()
        .map(|s| {
            let mut a = s.clone();
            a.shapes.retain(|k, _| k.starts_with("a#"));
            (as_json(s).into_bytes(), as_idl(&a, "a").into_bytes())
        })
        .unzip();
    for (format, docs) in [("smithy", &sd), ("json", &jd)] {
        for (name, w) in walks(docs.len(), 2) {
            c.case_o(&format!("reader {format} of rich: {name}"), w.len() > 1, || {
                let (mut si, mut js) = (SmithyReader::default(), JsonReader::default());
                for i in &w {
                    let t = &docs[*i];
                    let (fresh, got) = if format == "smithy" { (get(&mut SmithyReader::default(), t), get(&mut si, t)) } else { (get(&mut JsonReader::default(), t), get(&mut js, t)) };
                    like(&fresh, &got, false).map_err(|e| format!("document {i}: {e}"))?;
                }
                Ok("as fresh ones")
            });
        }
    }
    // linters and validators
    let mut pool = pool();
    pool.push(Spec::default().with("a#S", Body::Simple("string".into())));
    pool.push(Spec::default().with("a#L", Body::List(mem("member", "a#S"))).with("a#S", Body::Service(svc("1"))));
    pool.push(Spec::default().with("whitelist.b#slave", Body::Set(mem("member", "whitelist.b#slave"))));
    pool.push(kitchen());
    for (k, name) in ["naming", "terms", "references", "unresolved"].iter().enumerate() {
        for (what, w) in walks(pool.len(), n) {
            if w.len() > 2 && w.contains(&7) && !c.thorough && w.len() < 10 {
                continue;
            }
            let pool = &pool;
            c.case_o(&format!("{name}: {what}"), w.len() > 1, || {
                fn run(k: usize, ws: &[usize], pool: &[Spec]) -> Result<Vec<String>, String> {
                    let mut a = NamingConventions::default();
                    let mut b = UnwelcomeTerms::default();
                    let mut r = CorrectTypeReferences::default();
                    let mut d = NoUnresolvedReferences::default();
                    for i in ws {
                        let m = pool[*i].build();
                        match k {
                            0 => a.check(&m),
                            1 => b.check(&m),
                            2 => r.validate(&m),
                            _ => d.validate(&m),
                        }
                        .map_err(|e| format!("fails: {e}"))?;
                        diff(&pool[*i], &Spec::observe(&m)).map_err(|e| format!("checking changed the model: {e}"))?;
                    }
                    Ok(match k {
                        0 => issues(&mut a),
                        1 => issues(&mut b),
                        2 => issues(&mut r),
                        _ => issues(&mut d),
                    })
                }
                let mut want = vec![];
                for i in &w {
                    want.extend(run(k, &[*i], pool)?);
                }
                want.sort();
                let got = run(k, &w, pool)?;
                if got != want {
                    return Err(format!("fresh ones report {want:?}, this one {got:?}"));
                }
                Ok("issues add up")
            });
        }
    }
}
