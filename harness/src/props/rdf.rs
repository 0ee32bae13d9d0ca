//! C25 (shape URNs) and C26 (RDF graph).
use super::iofam::{models, neighbours, rich};
use crate::kit::gen::strings;
use crate::kit::order::with_seed;
use crate::kit::run::{guard, Ctx};
use crate::kit::spec::*;
use atelier_core::io::ModelWriter;
use atelier_core::model::Model;
use atelier_rdf::urn::{iri_to_shape, is_shape_iri, shape_to_iri};
use atelier_rdf::writer::{model_to_rdf, RdfWriter};
use rdftk_core::simple::graph_factory;
use rdftk_iri::{IRIRef, IRI};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;

// ---------------------------------------------------------------------------------------- C25

/// The only texts that are shape URNs, written down independently: scheme, identifier, colon, name.
fn ref_urn(s: &str) -> Option<String> {
    fn ident(s: &str) -> bool {
        let t = s.trim_start_matches('_');
        t.starts_with(|c: char| c.is_ascii_alphabetic()) && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
    }
    let r = s.strip_prefix("urn:smithy:")?;
    let (ns, r) = r.split_once(':')?;
    let (name, member) = match r.split_once('/') {
        Some((n, m)) => (n, Some(m)),
        None => (r, None),
    };
    if !ns.split('.').all(ident) || !ident(name) || member.map_or(false, |m| !ident(m)) {
        return None;
    }
    Some(format!("{ns}#{name}{}", member.map(|m| format!("${m}")).unwrap_or_default()))
}

fn check_text(t: &str) -> Result<&'static str, String> {
    let want = ref_urn(t);
    let Ok(iri) = IRI::from_str(t) else {
        return if want.is_some() { Err("not even an IRI".into()) } else { Ok("not an IRI") };
    };
    if iri.to_string() != t {
        // the IRI library itself rewrote the text; judge what it kept
        return Ok("rewritten by the IRI library");
    }
    if !t.starts_with("urn:") && t.to_ascii_lowercase().starts_with("urn:") {
        // schemes ignore case: the same IRI as the one in lower case, or no Smithy URN
        let got = iri_to_shape(iri.into()).ok().map(|s| s.to_string());
        let same = ref_urn(&format!("urn:{}", &t[4..]));
        return if got.is_none() || got == same { Ok("scheme in upper case") } else { Err(format!("read as {got:?}")) };
    }
    let iri = IRIRef::from(iri);
    let got = iri_to_shape(iri.clone()).ok().map(|s| s.to_string());
    if got != want {
        return Err(format!("read as {got:?}, should be {want:?}"));
    }
    if is_shape_iri(iri) != want.is_some() {
        return Err("is_shape_iri disagrees with iri_to_shape".into());
    }
    Ok(if want.is_some() { "a shape URN" } else { "refused" })
}

pub fn urns(c: &mut Ctx) {
    c.per_case = 2;
    c.rule = "every shape id built from one to three (thorough: four) namespace segments, a shape name and an optional member out of ten identifiers: written as the documented URN and read back as the same id, no two ids having one URN; every text one edit (insertion, replacement, deletion, case change, over 21 characters; thorough: also every two insertions) away from ten URNs and every sequence of up to five (thorough: six) URN pieces: read as the id it spells or refused; non-trivial = the text starts with urn:smithy:".into();
    let ids = ["a", "B", "_a", "__b9", "a_", "a1", "aB", "smithy", "urn", "x0_y"];
    let mut nss: Vec<String> = ids.iter().map(|x| x.to_string()).collect();
    let small = ["a", "B", "_a", "a1"];
    for n in 2..=(if c.thorough { 4 } else { 3 }) {
        for q in crate::kit::gen::sequences(small.len(), n).into_iter().filter(|q| q.len() == n) {
            nss.push(q.iter().map(|i| small[*i]).collect::<Vec<_>>().join("."));
        }
    }
    let mut seen: HashMap<String, String> = HashMap::new();
    for ns in &nss {
        for n in ids {
            for m in std::iter::once(None).chain(ids.iter().map(Some)) {
                let id = format!("{ns}#{n}{}", m.map(|m| format!("${m}")).unwrap_or_default());
                let want = format!("urn:smithy:{ns}:{n}{}", m.map(|m| format!("/{m}")).unwrap_or_default());
                if let Some(other) = seen.insert(want.clone(), id.clone()) {
                    c.fail(&id, format!("harness: same URN as {other}"));
                }
                c.case_o(&id, true, || {
                    let iri = shape_to_iri(&sid(&id));
                    if iri.to_string() != want {
                        return Err(format!("written as {iri}, documented is {want}"));
                    }
                    if !is_shape_iri(iri.clone()) {
                        return Err("its URN is not taken for a shape URN".into());
                    }
                    match iri_to_shape(iri) {
                        Ok(b) if b == sid(&id) && b.to_string() == id => {}
                        b => return Err(format!("comes back as {b:?}")),
                    }
                    check_text(&want)
                });
            }
        }
    }
    let edits = [
        ":", "/", ".", "#", "$", "?", "%", "%61", ";", "-", "_", "~", " ", "0", "a", "Z", "é", "@", "+", "&", "*",
    ];
    let bases = [
        "urn:smithy:a:b", "urn:smithy:a:b/c", "urn:smithy:a.b:c", "urn:smithy:a.b:c/d", "urn:smithy:_a._b.c1:_d/_e",
        "urn:smithy:smithy.api:String", "urn:smithy:example.motd:GetMessageInput/date", "urn:smithy:A1:B2/C3",
        "urn:smithy:a:b/b", "urn:smithy:smithy:smithy/smithy",
    ];
    let mut texts: BTreeSet<String> = BTreeSet::new();
    for b in bases {
        texts.insert(b.into());
        let ch: Vec<char> = b.chars().collect();
        for i in 0..=ch.len() {
            let (l, r): (String, String) = (ch[..i].iter().collect(), ch[i..].iter().collect());
            for e in edits {
                texts.insert(format!("{l}{e}{r}"));
                if i < ch.len() {
                    texts.insert(format!("{l}{e}{}", ch[i + 1..].iter().collect::<String>()));
                }
                if c.thorough {
                    for j in i..=ch.len() {
                        for f in edits {
                            let (m, r): (String, String) = (ch[i..j].iter().collect(), ch[j..].iter().collect());
                            texts.insert(format!("{l}{e}{m}{f}{r}"));
                        }
                    }
                }
            }
            if i < ch.len() {
                let rest: String = ch[i + 1..].iter().collect();
                texts.insert(format!("{l}{rest}"));
                texts.insert(format!("{l}{}{rest}", ch[i].to_ascii_uppercase()));
                texts.insert(format!("{l}{}{rest}", ch[i].to_ascii_lowercase()));
                texts.insert(l.clone());
            }
        }
    }
    for t in strings(&["urn:", "smithy:", "a", "a.b", ":", "/", "b", "//", "#", "?"], if c.thorough { 6 } else { 5 }) {
        texts.insert(t);
    }
    for t in texts {
        c.case_o(&format!("text {t}"), t.starts_with("urn:smithy:"), || check_text(&t));
    }
}

// ---------------------------------------------------------------------------------------- C26

const SM: &str = "https://awslabs.github.io/smithy/rdf-1.0#";
const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

/// An RDF description with blank nodes as trees; bags unordered.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum N {
    Iri(String),
    Lit(String, String),
    Node(BTreeMap<String, Vec<N>>),
}
type Props = BTreeMap<String, Vec<N>>;

fn put(p: &mut Props, k: &str, n: N) {
    p.entry(k.to_string()).or_default().push(n);
}
fn iri(s: impl Into<String>) -> N {
    N::Iri(s.into())
}
fn lit(s: &str) -> N {
    let d = format!("{s:?}");
    N::Lit(d[1..d.len() - 1].to_string(), String::new())
}
fn sm(x: &str) -> String {
    format!("{SM}{x}")
}
fn urn(id: &str) -> N {
    iri(format!("urn:smithy:{}", id.replace('#', ":").replace('$', "/")))
}
fn finish(mut p: Props) -> Props {
    for (_, v) in p.iter_mut() {
        v.sort();
        // a graph is a set: the same statement twice says nothing more (blank nodes are all different)
        let mut w: Vec<N> = vec![];
        for x in v.drain(..) {
            if !matches!(x, N::Node(_)) && w.last() == Some(&x) {
                continue;
            }
            w.push(x);
        }
        *v = w;
    }
    p
}
fn node(p: Props) -> N {
    N::Node(finish(p))
}
/// Entries of a bag are kept under one name, for their numbers mean nothing.
fn bag(entries: Vec<N>) -> N {
    let mut p = Props::new();
    put(&mut p, &format!("{RDF}type"), iri(format!("{RDF}Bag")));
    for e in entries {
        put(&mut p, "entry", e);
    }
    node(p)
}

fn ref_value(v: &V) -> N {
    match v {
        V::None => iri(sm("null")),
        V::Bool(b) => N::Lit(b.to_string(), format!("{XSD}boolean")),
        V::Int(i) => N::Lit(i.to_string(), format!("{XSD}long")),
        V::Float(f) => N::Lit(format!("{:016x}", f.0.to_bits()), format!("{XSD}double")),
        V::Str(s) => lit(s),
        V::Arr(a) => {
            let mut p = Props::new();
            put(&mut p, &format!("{RDF}type"), iri(format!("{RDF}Seq")));
            for (i, x) in a.iter().enumerate() {
                put(&mut p, &format!("{RDF}_{}", i + 1), ref_value(x));
            }
            node(p)
        }
        V::Obj(o) => bag(o
            .iter()
            .map(|(k, v)| {
                let mut p = Props::new();
                put(&mut p, &sm("key"), lit(k));
                put(&mut p, &sm("value"), ref_value(v));
                node(p)
            })
            .collect()),
    }
}
fn ref_traits(p: &mut Props, t: &Traits) {
    for (id, v) in t {
        let mut q = Props::new();
        put(&mut q, &sm("trait"), urn(id));
        if let Some(v) = v {
            put(&mut q, &sm("value"), ref_value(v));
        }
        put(p, &sm("apply"), node(q));
    }
}
fn ref_member(p: &mut Props, m: &Mem) {
    let mut q = Props::new();
    put(&mut q, &sm("name"), lit(&m.name));
    put(&mut q, &format!("{RDF}type"), urn(&m.target));
    ref_traits(&mut q, &m.traits);
    put(p, &sm("member"), node(q));
}
fn cap(s: &str) -> String {
    s[..1].to_uppercase() + &s[1..]
}

/// The documented mapping: what the graph of this model says of each subject.
fn expected(sp: &Spec, model: &str) -> BTreeMap<String, Props> {
    let a = format!("{RDF}type");
    let mut out: BTreeMap<String, Props> = BTreeMap::new();
    let mut m = Props::new();
    put(&mut m, &a, iri(sm("Model")));
    put(&mut m, &sm("smithy_version"), lit("1.0"));
    if !sp.metadata.is_empty() {
        put(&mut m, &sm("metadata"), ref_value(&V::Obj(sp.metadata.clone())));
    }
    for (id, s) in &sp.shapes {
        let N::Iri(subject) = urn(id) else { unreachable!() };
        let mut p = Props::new();
        ref_traits(&mut p, &s.traits);
        if let Body::Unresolved = s.body {
            if !p.is_empty() {
                out.insert(subject, finish(p));
            }
            continue;
        }
        put(&mut m, &sm("shape"), iri(subject.clone()));
        put(&mut p, &a, iri(sm(&cap(s.body.kind()))));
        for x in s.body.members() {
            ref_member(&mut p, x);
        }
        let each = |p: &mut Props, k: &str, v: &[String]| {
            for x in v {
                put(p, &sm(k), urn(x));
            }
        };
        match &s.body {
            Body::Service(b) => {
                put(&mut p, &sm("version"), lit(&b.version));
                each(&mut p, "operation", &b.operations);
                each(&mut p, "resource", &b.resources);
                if !b.renames.is_empty() {
                    let e = b.renames.iter().map(|(k, v)| {
                        let mut q = Props::new();
                        put(&mut q, &sm("shape"), urn(k));
                        put(&mut q, &sm("name"), lit(v));
                        node(q)
                    });
                    put(&mut p, &sm("rename"), bag(e.collect()));
                }
            }
            Body::Operation(b) => {
                each(&mut p, "input", b.input.as_slice());
                each(&mut p, "output", b.output.as_slice());
                each(&mut p, "error", &b.errors);
            }
            Body::Resource(b) => {
                for (n, x) in LIFE.iter().zip(&b.life) {
                    each(&mut p, n, x.as_slice());
                }
                each(&mut p, "operation", &b.operations);
                each(&mut p, "collectionOperation", &b.collection_operations);
                each(&mut p, "resource", &b.resources);
                if !b.identifiers.is_empty() {
                    let e = b.identifiers.iter().map(|(k, v)| {
                        let mut q = Props::new();
                        put(&mut q, &sm("key"), lit(k));
                        put(&mut q, &sm("target"), urn(v));
                        node(q)
                    });
                    put(&mut p, &sm("identifiers"), bag(e.collect()));
                }
            }
            _ => {}
        }
        out.insert(subject, finish(p));
    }
    out.insert(model.to_string(), finish(m));
    out
}

/// The same description taken from the graph; every statement has to have its place in it.
fn observed(m: &Model, model: Option<&str>) -> Result<BTreeMap<String, Props>, String> {
    let g = model_to_rdf(m, model.map(|i| IRIRef::from(IRI::from_str(i).unwrap())), graph_factory())
        .map_err(|e| format!("model_to_rdf: {e}"))?;
    let g = g.borrow();
    // (subject) -> [(predicate, object)]; blanks are written _:name
    let mut by: BTreeMap<String, BTreeSet<(String, String, String, String)>> = BTreeMap::new();
    for st in g.statements() {
        let s = match (st.subject().as_blank(), st.subject().as_iri()) {
            (Some(b), _) => format!("_:{b}"),
            (_, Some(i)) => i.to_string(),
            _ => return Err("a statement about a statement".into()),
        };
        let o = st.object();
        let o = if let Some(b) = o.as_blank() {
            ("blank", format!("_:{b}"), String::new())
        } else if let Some(i) = o.as_iri() {
            ("iri", i.to_string(), String::new())
        } else if let Some(l) = o.as_literal() {
            if l.has_language() {
                return Err("a literal with a language".into());
            }
            ("lit", l.lexical_form().clone(), l.data_type().map(|d| d.as_iri().to_string()).unwrap_or_default())
        } else {
            return Err("an object that is a statement".into());
        };
        by.entry(s).or_default().insert((st.predicate().to_string(), o.0.into(), o.1, o.2));
    }
    let mut used: BTreeSet<String> = BTreeSet::new();
    type By = BTreeMap<String, BTreeSet<(String, String, String, String)>>;
    fn props(by: &By, s: &str, used: &mut BTreeSet<String>) -> Result<Props, String> {
        let mut p = Props::new();
        let e = BTreeSet::new();
        for (k, kind, o, t) in by.get(s).unwrap_or(&e) {
            let n = match kind.as_str() {
                "iri" => N::Iri(o.clone()),
                "lit" if t == &format!("{XSD}double") => {
                    let f: f64 = o.trim_matches('"').parse().map_err(|_| format!("not a double: {o}"))?;
                    N::Lit(format!("{:016x}", f.to_bits()), t.clone())
                }
                "lit" if t == &format!("{XSD}string") => N::Lit(o.clone(), String::new()),
                "lit" => N::Lit(o.clone(), t.clone()),
                _ => {
                    if !used.insert(o.clone()) {
                        return Err(format!("blank node {o} is used twice"));
                    }
                    N::Node(props(by, o, used)?)
                }
            };
            put(&mut p, k, n);
        }
        if p.get(&format!("{RDF}type")) == Some(&vec![iri(format!("{RDF}Bag"))]) {
            let mut i = 1;
            let mut all = vec![];
            while let Some(mut v) = p.remove(&format!("{RDF}_{i}")) {
                if v.len() != 1 {
                    return Err(format!("{} entries numbered {i} in a bag", v.len()));
                }
                all.append(&mut v);
                i += 1;
            }
            if !all.is_empty() {
                p.insert("entry".into(), all);
            }
        }
        Ok(finish(p))
    }
    let mut out = BTreeMap::new();
    let mut blank = vec![];
    for s in by.keys() {
        if !s.starts_with("_:") {
            out.insert(s.clone(), props(&by, s, &mut used)?);
        } else {
            blank.push(s.clone());
        }
    }
    if model.is_none() {
        // exactly one blank subject is not the object of anything: the model
        let objects: BTreeSet<&String> = by.values().flatten().filter(|x| x.1 == "blank").map(|x| &x.2).collect();
        let roots: Vec<&String> = blank.iter().filter(|b| !objects.contains(b)).collect();
        let [r] = roots[..] else { return Err(format!("{} blank nodes nothing leads to", roots.len())) };
        used.insert(r.clone());
        out.insert("model".into(), props(&by, r, &mut used)?);
    }
    if let Some(b) = blank.iter().find(|b| !used.contains(*b)) {
        return Err(format!("nothing leads to the blank node {b}: {:?}", by[b]));
    }
    Ok(out)
}

fn compare(want: &BTreeMap<String, Props>, got: &BTreeMap<String, Props>) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    let mut d = String::new();
    for s in want.keys().chain(got.keys()).collect::<BTreeSet<_>>() {
        let (w, g) = (want.get(s).cloned().unwrap_or_default(), got.get(s).cloned().unwrap_or_default());
        for k in w.keys().chain(g.keys()).collect::<BTreeSet<_>>() {
            if w.get(k) != g.get(k) {
                d += &format!("; {s} {k}: should be {:?}, is {:?}", w.get(k), g.get(k));
            }
        }
    }
    Err(format!("the graph says something else{}", d.chars().take(1500).collect::<String>()))
}

pub fn graph(c: &mut Ctx) {
    c.per_case = 5;
    c.rule = "every model of the shared families and every change of one detail of twelve rich models: the statements of its graph, with the model named and not named, built in either order, are those of the documented mapping up to blank node names and bag numbering, and the Turtle writer accepts it; a kitchen-sink model under every hash seed; non-trivial = the model has a shape".into();
    let c_thorough = c.thorough;
    let mut all = models(c.thorough);
    for (k, base) in rich().iter().enumerate() {
        for (what, sp) in neighbours(base) {
            all.push((format!("rich {k}: {what}"), sp));
        }
    }
    // bags of thousands are beyond what comparing graphs up to blank nodes (and rdftk) can take
    all.retain(|(n, _)| !["keys", "elements"].iter().any(|w| n.ends_with(w)) || n.split(' ').filter_map(|x| x.parse::<usize>().ok()).all(|x| x < 1000));
    const M: &str = "https://example.org/the/model";
    for (name, sp) in &all {
        c.case_o(name, !sp.shapes.is_empty(), || {
            let m = sp.build();
            compare(&expected(sp, M), &observed(&m, Some(M))?)?;
            if name.starts_with("rich") && !c_thorough {
                return Ok("graph of the named model");
            }
            compare(&expected(sp, "model"), &observed(&m, None)?)?;
            compare(&expected(sp, M), &observed(&super::json::build_reversed(sp), Some(M))?)?;
            let mut b = vec![];
            RdfWriter::default().write(&mut b, &m).map_err(|e| format!("Turtle writer: {e}"))?;
            let mut b2 = vec![];
            RdfWriter::new(IRIRef::from(IRI::from_str(M).unwrap())).write(&mut b2, &m).map_err(|e| format!("Turtle writer: {e}"))?;
            if !String::from_utf8_lossy(&b2).contains(M) {
                return Err("the Turtle document does not name the model".into());
            }
            Ok("graph, its variations, Turtle")
        });
    }
    let k = super::iofam::kitchen();
    for seed in 0..(if c.thorough { 400u64 } else { 60 }) {
        let k = &k;
        c.case(&format!("kitchen sink under hash seed {seed}"), true, || {
            let r = with_seed(seed + 2, || guard(|| observed(&k.build(), Some(M))))??;
            compare(&expected(k, M), &r)
        });
    }
}
