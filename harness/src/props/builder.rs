//! C09, C10: the model builder.
use super::fam::*;
use super::merging::{decorate, perms, sort_arrays};
use crate::kit::doc::*;
use crate::kit::gen::*;
use crate::kit::order::with_seed;
use crate::kit::run::Ctx;
use crate::kit::spec::*;
use atelier_core::builder::traits::ErrorSource;
use atelier_core::builder::*;
use atelier_core::model::values::Number;
use atelier_core::model::Model;
use atelier_core::Version;
use std::collections::BTreeMap;
use std::convert::TryInto;

fn tb(name: &str, v: &Option<V>) -> TraitBuilder {
    match v {
        None => TraitBuilder::new(name),
        Some(v) => TraitBuilder::with_value(name, v_to(v)),
    }
}
fn dress<T: ShapeTraits>(b: &mut T, t: &Traits) {
    for (k, v) in t {
        let _ = b.apply_trait(tb(k, v));
    }
}
fn member(m: &Mem) -> MemberBuilder {
    let mut b = MemberBuilder::new(&m.name, &m.target);
    dress(&mut b, &m.traits);
    b
}

/// Hand one definition to the builder. `style` picks among equivalent builder calls.
pub fn define(b: &mut ModelBuilder, name: &str, s: &Shape, style: u8) {
    let strs = |v: &Vec<String>| v.clone();
    match &s.body {
        Body::Simple(k) => {
            let mut x = match (style, k.as_str()) {
                (0, _) => SimpleShapeBuilder::new(name, simple_of(k)),
                (_, "blob") => SimpleShapeBuilder::blob(name),
                (_, "boolean") => SimpleShapeBuilder::boolean(name),
                (_, "document") => SimpleShapeBuilder::document(name),
                (_, "string") => SimpleShapeBuilder::string(name),
                (_, "byte") => SimpleShapeBuilder::byte(name),
                (_, "short") => SimpleShapeBuilder::short(name),
                (_, "integer") => SimpleShapeBuilder::integer(name),
                (_, "long") => SimpleShapeBuilder::long(name),
                (_, "float") => SimpleShapeBuilder::float(name),
                (_, "double") => SimpleShapeBuilder::double(name),
                (_, "bigInteger") => SimpleShapeBuilder::big_integer(name),
                (_, "bigDecimal") => SimpleShapeBuilder::big_decimal(name),
                _ => SimpleShapeBuilder::timestamp(name),
            };
            dress(&mut x, &s.traits);
            b.simple_shape(x);
        }
        Body::List(m) | Body::Set(m) => {
            let mut x = ListBuilder::new(name, if m.traits.is_empty() && style == 0 { &m.target } else { "Other" });
            if !(m.traits.is_empty() && style == 0) {
                x.target(member(m));
            }
            dress(&mut x, &s.traits);
            if matches!(s.body, Body::List(_)) {
                b.list(x);
            } else {
                b.set(x);
            }
        }
        Body::Map(k, v) => {
            let plain = k.traits.is_empty() && v.traits.is_empty() && style == 0;
            let mut x = if plain { MapBuilder::new(name, &k.target, &v.target) } else { MapBuilder::new(name, "OtherK", "OtherV") };
            if !plain {
                x.key(member(k));
                x.value(member(v));
            }
            dress(&mut x, &s.traits);
            b.map(x);
        }
        Body::Structure(ms) | Body::Union(ms) => {
            let mut x = StructureBuilder::new(name);
            for m in ms.values() {
                if m.traits.is_empty() && style == 0 {
                    x.member(&m.name, &m.target);
                } else {
                    x.add_member(member(m));
                }
            }
            dress(&mut x, &s.traits);
            if matches!(s.body, Body::Structure(_)) {
                b.structure(x);
            } else {
                b.union(x);
            }
        }
        Body::Service(y) => {
            let mut x = if style == 0 { ServiceBuilder::new(name, &y.version) } else { ServiceBuilder::new(name, "other") };
            if style != 0 {
                x.version(&y.version);
                x.operations(&strs(&y.operations).iter().map(|s| s.as_str()).collect::<Vec<_>>());
                x.resources(&strs(&y.resources).iter().map(|s| s.as_str()).collect::<Vec<_>>());
            } else {
                for o in &y.operations {
                    x.operation(o);
                }
                for o in &y.resources {
                    x.resource(o);
                }
            }
            for (k, v) in &y.renames {
                x.rename(k, v);
            }
            dress(&mut x, &s.traits);
            b.service(x);
        }
        Body::Operation(y) => {
            let mut x = OperationBuilder::new(name);
            if let Some(i) = &y.input {
                x.input(i);
            }
            if let Some(i) = &y.output {
                x.output(i);
            }
            if style == 0 {
                for e in &y.errors {
                    x.error(e);
                }
            } else {
                x.errors(&y.errors.iter().map(|s| s.as_str()).collect::<Vec<_>>());
            }
            dress(&mut x, &s.traits);
            b.operation(x);
        }
        Body::Resource(y) => {
            let mut x = ResourceBuilder::new(name);
            for (k, v) in &y.identifiers {
                x.identifier(k, v);
            }
            let set: [fn(&mut ResourceBuilder, &str); 6] = [
                |b, s| {
                    b.create(s);
                },
                |b, s| {
                    b.put(s);
                },
                |b, s| {
                    b.read(s);
                },
                |b, s| {
                    b.update(s);
                },
                |b, s| {
                    b.delete(s);
                },
                |b, s| {
                    b.list(s);
                },
            ];
            for (i, l) in y.life.iter().enumerate() {
                if let Some(l) = l {
                    set[i](&mut x, l);
                }
            }
            if style == 0 {
                for o in &y.operations {
                    x.operation(o);
                }
                for o in &y.collection_operations {
                    x.collection_operation(o);
                }
                for o in &y.resources {
                    x.resource(o);
                }
            } else {
                let r = |v: &Vec<String>| v.clone();
                x.resources(&r(&y.resources).iter().map(|s| s.as_str()).collect::<Vec<_>>());
                x.collection_operations(&r(&y.collection_operations).iter().map(|s| s.as_str()).collect::<Vec<_>>());
                x.operations(&r(&y.operations).iter().map(|s| s.as_str()).collect::<Vec<_>>());
            }
            dress(&mut x, &s.traits);
            b.resource(x);
        }
        Body::Unresolved => {
            let mut x = ReferenceBuilder::new(name);
            dress(&mut x, &s.traits);
            b.reference(x);
        }
    }
}

/// One builder call of a document: metadata, use, definition, apply.
#[derive(Clone, Copy, Debug)]
pub enum Stmt {
    Meta(usize),
    Use(usize),
    Def(usize),
    Apply(usize),
}
pub fn stmts(d: &Doc) -> Vec<Stmt> {
    let mut v: Vec<Stmt> = (0..d.uses.len()).map(Stmt::Use).collect();
    v.extend((0..d.meta.len()).map(Stmt::Meta));
    v.extend((0..d.defs.len()).map(Stmt::Def));
    v.extend((0..d.applies.len()).map(Stmt::Apply));
    v
}
pub fn drive(d: &Doc, order: &[Stmt], style: u8) -> Result<Model, String> {
    let mut b = ModelBuilder::new(Version::V10, &d.ns);
    for st in order {
        match st {
            Stmt::Meta(i) => {
                let (k, v) = &d.meta[*i];
                if style == 0 {
                    b.meta_data(k.clone(), v_to(v));
                } else {
                    b.meta_data_from([(k.clone(), v_to(v))].into_iter().collect());
                }
            }
            Stmt::Use(i) => {
                b.uses(&d.uses[*i]);
            }
            Stmt::Def(i) => {
                let (n, s) = &d.defs[*i];
                define(&mut b, n, s, style);
            }
            Stmt::Apply(i) => {
                let (t, n, v) = &d.applies[*i];
                b.apply(t, tb(n, v));
            }
        }
    }
    if style == 0 {
        return b.try_into().map_err(|e: atelier_core::error::Error| e.to_string());
    }
    // a builder that is only lent can be built from again
    let r: Result<Model, _> = (&mut b).try_into();
    let again: Result<Model, _> = (&mut b).try_into();
    match (&r, &again) {
        (Ok(x), Ok(y)) if diff(&sort_arrays(&Spec::observe(x)), &sort_arrays(&Spec::observe(y))).is_ok() => {}
        (Err(_), Err(_)) => {}
        _ => return Ok(Spec::default().with("harness#SecondBuildDiffers", Body::Unresolved).build()),
    }
    r.map_err(|e: atelier_core::error::Error| e.to_string())
}
pub fn agree(d: &Doc, got: Result<Spec, String>) -> Result<&'static str, String> {
    match (d.resolve(), got) {
        (Ok(w), Ok(g)) => diff(&sort_arrays(&w), &sort_arrays(&g)).map(|_| "built"),
        (Err(()), Err(_)) => Ok("refused"),
        (Ok(_), Err(e)) => Err(format!("refused: {e}")),
        (Err(()), Ok(g)) => Err(format!("accepted a contradiction or an ambiguity: {}", g.show())),
    }
}

/// Every position a name can stand in.
fn slots() -> Vec<(&'static str, bool, fn(&str) -> Shape)> {
    fn bare(b: Body) -> Shape {
        Shape { traits: Traits::new(), body: b }
    }
    fn res(f: impl Fn(&mut Res)) -> Shape {
        let mut r = Res::default();
        f(&mut r);
        bare(Body::Resource(r))
    }
    fn with(t: &str, b: Body) -> Shape {
        Shape { traits: traits(&[(t, None)]), body: b }
    }
    fn tm(name: &str, t: &str) -> Mem {
        Mem { traits: traits(&[(t, Some(V::Int(1)))]), ..mem(name, "q#Q") }
    }
    let q = || mem("q", "q#Q");
    let _ = q;
    vec![
        ("list member", false, |n| bare(Body::List(mem("member", n)))),
        ("set member", false, |n| bare(Body::Set(mem("member", n)))),
        ("map key", false, |n| bare(Body::Map(mem("key", n), mem("value", "q#Q")))),
        ("map value", false, |n| bare(Body::Map(mem("key", "q#Q"), mem("value", n)))),
        ("structure member", false, |n| bare(Body::Structure(st(&[mem("k", "q#Q"), mem("m", n)])))),
        ("union member", false, |n| bare(Body::Union(st(&[mem("k", "q#Q"), mem("m", n)])))),
        ("service operation", false, |n| bare(Body::Service(Svc { version: "1".into(), operations: strs(&["q#Q", n]), ..Default::default() }))),
        ("service resource", false, |n| bare(Body::Service(Svc { version: "1".into(), resources: strs(&[n, "q#Q"]), ..Default::default() }))),
        ("operation input", false, |n| bare(op3(Some(n), None, &[]))),
        ("operation output", false, |n| bare(op3(None, Some(n), &[]))),
        ("operation error", false, |n| bare(op3(None, None, &["q#Q", n]))),
        ("resource identifier", false, |n| res(|r| r.identifiers = smap(&[("k", n)]))),
        ("resource create", false, |n| res(|r| r.life[0] = Some(n.into()))),
        ("resource put", false, |n| res(|r| r.life[1] = Some(n.into()))),
        ("resource read", false, |n| res(|r| r.life[2] = Some(n.into()))),
        ("resource update", false, |n| res(|r| r.life[3] = Some(n.into()))),
        ("resource delete", false, |n| res(|r| r.life[4] = Some(n.into()))),
        ("resource list", false, |n| res(|r| r.life[5] = Some(n.into()))),
        ("resource operation", false, |n| res(|r| r.operations = strs(&[n]))),
        ("resource collection operation", false, |n| res(|r| r.collection_operations = strs(&[n]))),
        ("resource resource", false, |n| res(|r| r.resources = strs(&[n]))),
        ("trait of simple", true, |n| with(n, Body::Simple("long".into()))),
        ("trait of list", true, |n| with(n, Body::List(mem("member", "q#Q")))),
        ("trait of set", true, |n| with(n, Body::Set(mem("member", "q#Q")))),
        ("trait of map", true, |n| with(n, Body::Map(mem("key", "q#Q"), mem("value", "q#Q")))),
        ("trait of structure", true, |n| with(n, Body::Structure(st(&[])))),
        ("trait of union", true, |n| with(n, Body::Union(st(&[])))),
        ("trait of service", true, |n| with(n, Body::Service(svc("1")))),
        ("trait of operation", true, |n| with(n, op3(None, None, &[]))),
        ("trait of resource", true, |n| with(n, Body::Resource(Res::default()))),
        ("trait of list member", true, |n| bare(Body::List(tm("member", n)))),
        ("trait of set member", true, |n| bare(Body::Set(tm("member", n)))),
        ("trait of map key", true, |n| bare(Body::Map(tm("key", n), mem("value", "q#Q")))),
        ("trait of map value", true, |n| bare(Body::Map(mem("key", "q#Q"), tm("value", n)))),
        ("trait of structure member", true, |n| bare(Body::Structure(st(&[tm("m", n)])))),
        ("trait of union member", true, |n| bare(Body::Union(st(&[tm("m", n)])))),
    ]
}

pub fn contexts(n: &str) -> Vec<(String, Doc)> {
    // ways in which the surroundings can say something about the name `n`
    let mut out = vec![];
    let some = || Shape { traits: Traits::new(), body: Body::Simple("string".into()) };
    for imports in 0..6 {
        for defined in 0..3 {
            for noise in 0..4 {
                let mut d = Doc::new("a");
                let im: &[&str] = match imports {
                    0 => &[],
                    1 => &["b"],
                    2 => &["b", "c.d"],
                    3 => &["b", "b"],
                    4 => &["smithy.api"],
                    _ => &["a"],
                };
                d.uses = im.iter().map(|i| format!("{i}#{n}")).collect();
                match defined {
                    1 => d.defs.push((n.to_string(), some())),
                    2 => d.defs.push((format!("a#{n}"), some())),
                    _ => {}
                }
                match noise {
                    1 => d.uses.push(format!("b#{n}Other")),
                    // a trait applied to a foreign shape of that name is not an import of the name
                    2 => d.applies.push((format!("e#{n}"), "t#c".into(), None)),
                    3 => d.defs.push((format!("f#{n}"), some())),
                    _ => {}
                }
                out.push((format!("imports {im:?} defined {defined} noise {noise}"), d));
            }
        }
    }
    out
}

pub fn resolution(c: &mut Ctx) {
    c.rule = "every position a name can stand in (36, and the target of apply), crossed with 9 names (unknown, prelude shapes and traits, also in other letter case), written locally or qualified four ways, crossed with 72 surroundings (6 import sets x 3 ways to be defined x 4 distractions), under two hash seeds; every name of the prelude at one position each; every pair of positions for one name in 72 surroundings; 1 to 257 imports, all used, with one of six peculiarities wherever it stands; non-trivial = the name is written locally".into();
    let names = ["Foo", "String", "PrimitiveLong", "required", "trait", "box", "STRING", "Required", "tags"];
    let run = |c: &mut Ctx, name: String, d: Doc, local: bool| {
        c.case_o(&name, local, || {
            let mut label = "";
            for seed in [1, 2] {
                let got = with_seed(seed, || drive(&d, &stmts(&d), seed as u8 - 1).map(|m| Spec::observe(&m)));
                label = agree(&d, got)?;
            }
            Ok(label)
        });
    };
    let slots = slots();
    for n in names {
        let cx = contexts(n);
        for (sn, _, f) in &slots {
            for (cn, d) in &cx {
                for w in [n.to_string(), format!("a#{n}"), format!("b#{n}"), format!("smithy.api#{n}"), format!("z.z#{n}")] {
                    run(c, format!("{sn} {w}; {cn}"), d.clone().def("Owner", f(&w)), !w.contains('#'));
                }
            }
        }
        for (cn, d) in &cx {
            for w in [n.to_string(), format!("a#{n}"), format!("b#{n}"), format!("z.z#{n}")] {
                let mut d2 = d.clone();
                d2.applies.push((w.clone(), "t#u".into(), Some(V::Int(1))));
                run(c, format!("apply {w}; {cn}"), d2, !w.contains('#'));
                let mut d2 = d.clone();
                d2.applies.push(("q#Q".into(), w.clone(), Some(V::Int(1))));
                run(c, format!("apply with trait {w}; {cn}"), d2, !w.contains('#'));
            }
        }
    }
    for n in PRELUDE_SHAPES.iter().chain(&PRELUDE_TRAITS).chain(&PRELUDE_TRAITS2) {
        for (sn, _, f) in &slots {
            run(c, format!("prelude {n} as {sn}"), Doc::new("a").def("Owner", f(n)), true);
        }
    }
    many(c);
    for n in ["Foo", "String", "required"] {
        for (an, _, f) in &slots {
            for (bn, _, g) in &slots {
                for (cn, d) in contexts(n) {
                    run(c, format!("{an} and {bn} {n}; {cn}"), d.def("Owner", f(n)).def("Other", g(n)), true);
                }
            }
        }
    }
}

/// Many imports, many definitions and many uses of names among them; every one must be resolved as
/// it would be alone, wherever among the imports what matters stands.
fn many(c: &mut Ctx) {
    let ns: Vec<usize> = (1..=10).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect();
    for n in ns {
        // where the interesting import stands
        let mut at: Vec<usize> = if n <= 10 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
        at.dedup();
        for k in at {
            for what in ["plain", "twice", "two namespaces", "also own", "prelude", "own namespace"] {
                for as_trait in [false, true] {
                    c.case_o(&format!("{n} imports, number {k} {what}, as trait {as_trait}"), true, || {
                        let mut label = "";
                        for seed in [1, 2] {
                            let mut d = Doc::new("a");
                            d.uses = (0..n).map(|i| format!("n{}#S{i}", i % 7)).collect();
                            let name = format!("S{k}");
                            match what {
                                "twice" => d.uses.push(format!("n{}#S{k}", k % 7)),
                                "two namespaces" => d.uses.insert(n / 2, format!("m#S{k}")),
                                "also own" => d = d.def(&name, Shape { traits: Traits::new(), body: Body::Simple("string".into()) }),
                                "prelude" => d.uses[k] = "n#String".into(),
                                "own namespace" => d.uses[k] = format!("a#S{k}"),
                                _ => {}
                            }
                            let name = if what == "prelude" { "String".to_string() } else { name };
                            // every imported name is used; one that is ambiguous may not be
                            for other in 0..n {
                                let other = if other == k { name.clone() } else { format!("S{other}") };
                                let body = if as_trait { Body::Simple("string".into()) } else { Body::List(mem("member", &other)) };
                                let tr = if as_trait { traits(&[(&other, None)]) } else { Traits::new() };
                                let user = format!("Use{}", d.defs.len());
                                d = d.def(&user, Shape { traits: tr, body });
                            }
                            let got = with_seed(seed, || drive(&d, &stmts(&d), seed as u8 - 1).map(|m| Spec::observe(&m)));
                            label = agree(&d, got)?;
                        }
                        Ok(label)
                    });
                }
            }
        }
    }
}

/// Every trait helper of the builder with the trait it stands for.
fn helpers() -> Vec<(&'static str, TraitBuilder, &'static str, Option<V>)> {
    let e = || Some(V::Obj(BTreeMap::new()));
    let o = |kv: &[(&str, V)]| Some(obj(kv));
    let mut v: Vec<(&str, TraitBuilder, &str, Option<V>)> = vec![
        ("boxed", traits::boxed(), "box", e()),
        ("documentation", traits::documentation("d\"x"), "documentation", Some(s("d\"x"))),
        ("error client", traits::error_source(ErrorSource::Client), "error", Some(s("client"))),
        ("error server", traits::error_source(ErrorSource::Server), "error", Some(s("server"))),
        ("external", traits::external_documentation(&[("A", "b"), ("C", "d")]), "externalDocumentation", o(&[("A", s("b")), ("C", s("d"))])),
        ("external none", traits::external_documentation(&[]), "externalDocumentation", e()),
        ("idempotent", traits::idempotent(), "idempotent", e()),
        ("length max", traits::length_max(7), "length", o(&[("max", V::Int(7))])),
        ("length min", traits::length_min(0), "length", o(&[("min", V::Int(0))])),
        ("length both", traits::length(Some(1), Some(2)), "length", o(&[("min", V::Int(1)), ("max", V::Int(2))])),
        ("no replace", traits::no_replace(), "noReplace", e()),
        ("pattern", traits::pattern("^[a]\\d$"), "pattern", Some(s("^[a]\\d$"))),
        ("private", traits::private(), "private", e()),
        ("range both", traits::range(Some(1), Some(2)), "range", o(&[("min", V::Int(1)), ("max", V::Int(2))])),
        ("range max", traits::range_max(9), "range", o(&[("max", V::Int(9))])),
        ("range min", traits::range_min(9), "range", o(&[("min", V::Int(9))])),
        ("readonly", traits::readonly(), "readonly", e()),
        ("references", traits::references(v_to(&V::Arr(vec![obj(&[("resource", s("R"))])]))), "references", Some(V::Arr(vec![obj(&[("resource", s("R"))])]))),
        ("required", traits::required(), "required", e()),
        ("requires length", traits::requires_length(), "requiresLength", e()),
        ("sensitive", traits::sensitive(), "sensitive", e()),
        ("streaming", traits::streaming(), "streaming", e()),
        ("since", traits::since("2020"), "since", Some(s("2020"))),
        ("tagged", traits::tagged(&["a", "b", "a"]), "tags", Some(V::Arr(vec![s("a"), s("b"), s("a")]))),
        ("tagged none", traits::tagged(&[]), "tags", Some(V::Arr(vec![]))),
        ("title", traits::title("T"), "title", Some(s("T"))),
        ("trait", traits::a_trait(), "trait", None),
        ("unique", traits::unique_items(), "uniqueItems", e()),
        ("unstable", traits::unstable(), "unstable", None),
    ];
    for bits in 0..16 {
        let p = |k: usize, t: &'static str| if bits & (1 << k) != 0 { Some(t) } else { None };
        let (i, ou, it, ps) = (p(0, "i"), p(1, "o"), p(2, "t"), p(3, "p"));
        let mut want = BTreeMap::new();
        for (k, x) in [("inputToken", i), ("outputToken", ou), ("items", it), ("pageSize", ps)] {
            if let Some(x) = x {
                want.insert(k.to_string(), s(x));
            }
        }
        v.push((Box::leak(format!("paginated {bits}").into_boxed_str()), traits::paginated(i, ou, it, ps), "paginated", Some(V::Obj(want))));
        if bits < 4 {
            let mut want = BTreeMap::new();
            for (k, x) in [("message", i), ("since", ou)] {
                if let Some(x) = x {
                    want.insert(k.to_string(), s(x));
                }
            }
            v.push((Box::leak(format!("deprecated {bits}").into_boxed_str()), traits::deprecated(i, ou), "deprecated", Some(V::Obj(want))));
        }
    }
    // limits: every pair, also contradictory ones
    let lim = [None, Some(0usize), Some(1), Some(2), Some(5), Some(255), Some(256), Some(1 << 31), Some(1 << 32), Some((1 << 53) + 1), Some(i64::MAX as usize)];
    for a in lim {
        for b in lim {
            if a.is_none() && b.is_none() {
                continue;
            }
            let mut want = BTreeMap::new();
            for (k, x) in [("min", a), ("max", b)] {
                if let Some(x) = x {
                    want.insert(k.to_string(), V::Int(x as i64));
                }
            }
            let n = |w: &str| -> &'static str { Box::leak(format!("{w} {a:?} {b:?}").into_boxed_str()) };
            v.push((n("length"), traits::length(a, b), "length", Some(V::Obj(want.clone()))));
            v.push((n("range"), traits::range(a, b), "range", Some(V::Obj(want.clone()))));
            match (a, b) {
                (Some(a), None) => {
                    v.push((n("length min"), traits::length_min(a), "length", Some(V::Obj(want.clone()))));
                    v.push((n("range min"), traits::range_min(a), "range", Some(V::Obj(want))));
                }
                (None, Some(b)) => {
                    v.push((n("length max"), traits::length_max(b), "length", Some(V::Obj(want.clone()))));
                    v.push((n("range max"), traits::range_max(b), "range", Some(V::Obj(want))));
                }
                _ => {}
            }
        }
    }
    // texts: every awkward one (and its neighbour in the list) wherever a helper takes one
    let texts = super::iofam::awkward(false);
    for (i, x) in texts.iter().enumerate() {
        let y = &texts[(i + 1) % texts.len()];
        let n = |w: &str| -> &'static str { Box::leak(format!("{w} {x:?}").into_boxed_str()) };
        v.push((n("documentation"), traits::documentation(x), "documentation", Some(s(x))));
        v.push((n("title"), traits::title(x), "title", Some(s(x))));
        if !x.is_empty() {
            v.push((n("since"), traits::since(x), "since", Some(s(x))));
            v.push((n("pattern"), traits::pattern(x), "pattern", Some(s(x))));
        }
        v.push((n("tagged"), traits::tagged(&[x, y, x, ""]), "tags", Some(V::Arr(vec![s(x), s(y), s(x), s("")]))));
        v.push((n("deprecated"), traits::deprecated(Some(x), Some(y)), "deprecated", o(&[("message", s(x)), ("since", s(y))])));
        v.push((n("deprecated same"), traits::deprecated(Some(x), Some(x)), "deprecated", o(&[("message", s(x)), ("since", s(x))])));
        v.push((n("external"), traits::external_documentation(&[(x, y), (y, x)]), "externalDocumentation", o(&[(x, s(y)), (y, s(x))])));
        v.push((n("paginated"), traits::paginated(Some(x), Some(y), Some(x), Some(y)), "paginated", o(&[("inputToken", s(x)), ("outputToken", s(y)), ("items", s(x)), ("pageSize", s(y))])));
        v.push((n("references"), traits::references(v_to(&V::Arr(vec![s(x), obj(&[(x, s(y))])]))), "references", Some(V::Arr(vec![s(x), obj(&[(x, s(y))])]))));
    }
    // values given to a trait builder by type
    let mk = |f: &dyn Fn(&mut TraitBuilder)| {
        let mut t = TraitBuilder::new("t#x");
        f(&mut t);
        t
    };
    let x = "\u{0}t#x";
    v.push(("value array", mk(&|t| drop(t.array(vec![v_to(&V::Int(1))]))), x, Some(V::Arr(vec![V::Int(1)]))));
    v.push(("value object", mk(&|t| drop(t.object([("k".to_string(), v_to(&V::None))].into_iter().collect()))), x, Some(obj(&[("k", V::None)]))));
    v.push(("value number", mk(&|t| drop(t.number(Number::Integer(-3)))), x, Some(V::Int(-3))));
    v.push(("value integer", mk(&|t| drop(t.integer(i64::MIN))), x, Some(V::Int(i64::MIN))));
    v.push(("value float", mk(&|t| drop(t.float(-0.0))), x, Some(V::Float(F(-0.0)))));
    v.push(("value boolean", mk(&|t| drop(t.boolean(false))), x, Some(V::Bool(false))));
    v.push(("value reference", mk(&|t| drop(t.reference(sid("a.b#C$d")))), x, Some(s("a.b#C$d"))));
    v.push(("value string", mk(&|t| drop(t.string("s"))), x, Some(s("s"))));
    for (i, val) in value_pool().into_iter().enumerate() {
        let n = |w: &str| -> &'static str { Box::leak(format!("{w} {i}").into_boxed_str()) };
        v.push((n("any value"), mk(&|t| drop(t.value(v_to(&val)))), x, Some(val.clone())));
        v.push((n("with value"), TraitBuilder::with_value("t#x", v_to(&val)), x, Some(val.clone())));
        match &val {
            V::Int(i) => v.push((n("integer"), mk(&|t| drop(t.integer(*i))), x, Some(val.clone()))),
            V::Float(F(f)) => v.push((n("float"), mk(&|t| drop(t.float(*f))), x, Some(val.clone()))),
            V::Bool(b) => v.push((n("boolean"), mk(&|t| drop(t.boolean(*b))), x, Some(val.clone()))),
            _ => {}
        }
    }
    for i in super::iofam::ints() {
        v.push((Box::leak(format!("value integer {i}").into_boxed_str()), mk(&|t| drop(t.integer(i))), x, Some(V::Int(i))));
    }
    for f in super::iofam::floats() {
        v.push((Box::leak(format!("value float {f:?}").into_boxed_str()), mk(&|t| drop(t.float(f))), x, Some(V::Float(F(f)))));
    }
    for t_ in &texts {
        v.push((Box::leak(format!("value string {t_:?}").into_boxed_str()), mk(&|t| drop(t.string(t_))), x, Some(s(t_))));
    }
    v.push(("annotation", TraitBuilder::annotation("t#x"), x, e()));
    v.push(("bare", TraitBuilder::new("t#x"), x, None));
    v.push(("value twice", mk(&|t| drop(t.string("s").integer(2))), x, Some(V::Int(2))));
    v
}

/// Statements that say something about each other.
pub fn pool() -> Vec<(&'static str, Doc)> {
    let bare = |b: Body| Shape { traits: Traits::new(), body: b };
    let e = || Doc::new("a");
    let ap = |a: &str, t: &str, v: Option<V>| Doc { applies: vec![(a.into(), t.into(), v)], ..e() };
    let tags = |x: &str| Some(V::Arr(vec![s(x)]));
    vec![
        ("use b#Foo", Doc { uses: vec!["b#Foo".into()], ..e() }),
        ("use b#Bar", Doc { uses: vec!["b#Bar".into()], ..e() }),
        ("def Foo", e().def("Foo", Shape { traits: traits(&[("tags", tags("x"))]), body: Body::Structure(st(&[mem("m", "Bar"), mem("n", "String")])) })),
        ("def Foo again", e().def("Foo", Shape { traits: traits(&[("tags", tags("y"))]), body: Body::Structure(st(&[mem("m", "Bar"), mem("n", "String")])) })),
        ("def Foo otherwise", e().def("a#Foo", bare(Body::Structure(st(&[mem("m", "Bar")]))))),
        ("def Bar", e().def("Bar", bare(Body::List(mem("member", "Foo"))))),
        ("def map", e().def("M", bare(Body::Map(mem("key", "Bar"), mem("value", "Foo"))))),
        ("apply Foo tags", ap("Foo", "tags", tags("z"))),
        ("apply a#Foo title", ap("a#Foo", "title", Some(s("T")))),
        ("apply a#Foo other title", ap("a#Foo", "smithy.api#title", Some(s("U")))),
        ("apply a#Foo$m", ap("a#Foo$m", "Bar", Some(V::Int(1)))),
        ("apply a#Bar$member", ap("a#Bar$member", "required", None)),
        ("apply a#M$value", ap("a#M$value", "required", None)),
        ("apply b#Foo", ap("b#Foo", "t#c", None)),
        ("meta x", Doc { meta: vec![("k".into(), V::Arr(vec![V::Int(1)]))], ..e() }),
        ("meta y", Doc { meta: vec![("k".into(), V::Arr(vec![V::Int(2)]))], ..e() }),
    ]
}

pub fn content(c: &mut Ctx) {
    c.level = "model_checking";
    c.rule = "every body of a 310-body family through two equivalent sets of builder calls, with and without traits on shape and members, with local and qualified names, under two hash seeds; every trait helper and every typed member helper; a trait applied to every body and to each of its members and six other names, before and after the definition; large models (up to thousands of shapes, members, values) and rich models with each neighbour, names local and qualified, traits with the definition or applied before or after; every order of every subset of up to five (six thorough) of 16 builder calls (imports, definitions of related shapes, repeated definitions, applied traits on shapes and members, metadata); state = set of calls made, transition = one builder call; non-trivial = at least two calls or a body with parts".into();
    // every body, names local (namespace a is the builder's) or qualified
    for (i, b) in body_variants().iter().enumerate() {
        for deco in 0..3 {
            for local in [false, true] {
                for style in [0u8, 1] {
                    let mut s_ = match deco {
                        0 => Shape { traits: Traits::new(), body: b.clone() },
                        1 => decorate(b, "t#d", None),
                        _ => decorate(b, "t#d", Some(obj(&[("k", V::Arr(vec![V::Int(1), V::None]))]))),
                    };
                    if local {
                        localize(&mut s_);
                    }
                    let unresolved = matches!(b, Body::Unresolved);
                    let d = Doc::new("a").def(if unresolved { "c#Owner" } else { "Owner" }, s_);
                    // a reference is an import as far as names go
                    c.case_o(&format!("body {i} {} deco {deco} local {local} style {style}", d.show()), true, || {
                        let mut l = "";
                        for seed in [1, 2] {
                            l = agree(&d, with_seed(seed, || drive(&d, &stmts(&d), style).map(|m| Spec::observe(&m))))?;
                        }
                        Ok(l)
                    });
                }
            }
        }
    }
    // a trait given from outside to every kind of shape, to each of its members and to members it does not have
    let values = [None, Some(V::Int(1)), Some(obj(&[("k", V::Arr(vec![V::Bool(true), V::None]))]))];
    for (i, b) in body_variants().iter().enumerate() {
        let unresolved = matches!(b, Body::Unresolved);
        let own = if unresolved { "c#Owner" } else { "Owner" };
        let mut at: Vec<String> = vec![String::new()];
        let mut names: Vec<String> = ["member", "key", "value", "x", "nobody", "_x"].iter().map(|s| s.to_string()).collect();
        names.extend(b.clone().members_mut().iter().map(|m| m.name.clone()));
        names.sort();
        names.dedup();
        at.extend(names.into_iter().map(|m| format!("${m}")));
        for m in at {
            for base in [own, "a#Owner"] {
                if unresolved && base == "a#Owner" {
                    continue;
                }
                let target = format!("{base}{m}");
                for (vi, v) in values.iter().enumerate() {
                    for order in 0..3 {
                        for deco in [false, true] {
                            let s_ = if deco { decorate(b, "t#d", v.clone()) } else { Shape { traits: Traits::new(), body: b.clone() } };
                            let d = Doc { applies: vec![(target.clone(), "t#d".into(), v.clone())], ..Doc::new("a") }.def(own, s_);
                            let d = if order == 2 { d.def("a#Other", Shape { traits: Traits::new(), body: b.clone() }) } else { d };
                            let (o, style) = match order {
                                0 => (vec![Stmt::Def(0), Stmt::Apply(0)], 0),
                                1 => (vec![Stmt::Apply(0), Stmt::Def(0)], 1),
                                _ => (vec![Stmt::Def(0), Stmt::Apply(0), Stmt::Def(1)], 0),
                            };
                            if unresolved && order == 2 {
                                continue;
                            }
                            c.case_o(&format!("apply {target} value {vi} order {order} to body {i} decorated {deco}"), true, || agree(&d, drive(&d, &o, style).map(|m| Spec::observe(&m))));
                        }
                    }
                }
            }
        }
    }
    // helpers
    for (n, t, id, v) in helpers() {
        c.case(&format!("trait helper {n}"), true, || {
            let mut b = ModelBuilder::new(Version::V10, "a");
            let mut x = SimpleShapeBuilder::string("S");
            x.apply_trait(t.clone());
            b.simple_shape(x);
            let m: Model = b.try_into().map_err(|e: atelier_core::error::Error| e.to_string())?;
            let id = match id.strip_prefix('\u{0}') {
                Some(x) => x.to_string(),
                None => format!("smithy.api#{id}"),
            };
            let mut want = Spec::default();
            want.shapes.insert("a#S".into(), Shape { traits: traits(&[(&id, v.clone())]), body: Body::Simple("string".into()) });
            diff(&want, &Spec::observe(&m))
        });
    }
    c.case("typed helpers of builders", true, typed_helpers);
    shape_helpers(c);
    // orders
    let pool = pool();
    let max = if c.thorough { 6 } else { 5 };
    let np: Vec<Vec<Vec<usize>>> = (0..=max).map(perms).collect();
    for bits in 0u32..(1 << pool.len()) {
        let k = bits.count_ones() as usize;
        if k == 0 || k > max {
            continue;
        }
        let parts: Vec<usize> = (0..pool.len()).filter(|i| bits & (1 << i) != 0).collect();
        let name = parts.iter().map(|i| pool[*i].0).collect::<Vec<_>>().join("; ");
        let name = format!("calls {name}");
        if c.mine(&name) {
            c.states += 1;
            c.traces += np[k].len() as u64;
            c.transitions += (np[k].len() * k) as u64;
        }
        c.case_o(&name, k > 1, || {
            let mut label = "";
            for p in &np[k] {
                let mut d = Doc::new("a");
                let mut order = vec![];
                for i in p {
                    let x = &pool[parts[*i]].1;
                    let at = (d.uses.len(), d.meta.len(), d.defs.len(), d.applies.len());
                    d.uses.extend(x.uses.iter().cloned());
                    d.meta.extend(x.meta.iter().cloned());
                    d.defs.extend(x.defs.iter().cloned());
                    d.applies.extend(x.applies.iter().cloned());
                    order.extend((at.0..d.uses.len()).map(Stmt::Use));
                    order.extend((at.1..d.meta.len()).map(Stmt::Meta));
                    order.extend((at.2..d.defs.len()).map(Stmt::Def));
                    order.extend((at.3..d.applies.len()).map(Stmt::Apply));
                }
                label = agree(&d, drive(&d, &order, 0).map(|m| Spec::observe(&m))).map_err(|e| format!("{}: {e}", d.show()))?;
            }
            Ok(label)
        });
    }
    whole(c);
    repeated_members(c);
    // one trait applied repeatedly to one builder
    for (i, a) in value_pool().iter().enumerate() {
        for (j, b) in value_pool().iter().enumerate() {
            for spelled in ["required", "smithy.api#required"] {
                c.case_o(&format!("trait twice {i} {j} {spelled}: {} {}", show_v(a), show_v(b)), true, || {
                    let mut x = StructureBuilder::new("S");
                    x.apply_trait(tb("required", &Some(a.clone())));
                    x.apply_trait(tb(spelled, &Some(b.clone())));
                    let mut m = MemberBuilder::new("m", "q#Q");
                    m.apply_trait(tb(spelled, &Some(a.clone())));
                    m.apply_trait(tb("required", &Some(b.clone())));
                    let mut y = StructureBuilder::new("S2");
                    y.add_member(m);
                    let want = super::merging::combine(&Some(a.clone()), &Some(b.clone()));
                    for (k, y) in [x, y].into_iter().enumerate() {
                        let mut mb = ModelBuilder::new(Version::V10, "a");
                        mb.structure(y);
                        let got: Result<Model, _> = mb.try_into();
                        match (&want, got) {
                            (Err(()), Err(_)) => {}
                            (Err(()), Ok(_)) => return Err("a contradictory trait was accepted".into()),
                            (Ok(_), Err(e)) => return Err(format!("refused: {e}")),
                            (Ok(w), Ok(g)) => {
                                let g = Spec::observe(&g);
                                let sh = g.shapes.values().next().unwrap();
                                let t = if k == 0 { &sh.traits } else { &sh.body.members()[0].traits };
                                if *t != traits(&[("smithy.api#required", w.clone())]) {
                                    return Err(format!("got {}", show_traits(t)));
                                }
                            }
                        }
                    }
                    Ok(if want.is_ok() { "merged" } else { "refused" })
                });
            }
        }
    }
}

/// Whole models - large ones, and rich ones with each of their neighbours - through the builder:
/// names local or qualified, traits with the definition or applied before or after it, definitions
/// in either order.
fn whole(c: &mut Ctx) {
    let mut all = super::iofam::models(c.thorough);
    for (i, r) in super::iofam::rich().iter().enumerate() {
        all.extend(super::iofam::neighbours(r).into_iter().map(|(n, m)| (format!("rich {i}, {n}"), m)));
    }
    for (n, sp) in all {
        for local in [false, true] {
            for given in 0..3 {
                let style = (given % 2) as u8;
                c.case_o(&format!("whole model {n}, local {local}, traits {given}"), true, || {
                    let mut d = Doc::new("a");
                    d.meta = sp.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    for (id, sh) in &sp.shapes {
                        let mut sh = sh.clone();
                        if given > 0 && !matches!(sh.body, Body::Unresolved) {
                            for (t, v) in std::mem::take(&mut sh.traits) {
                                d.applies.push((id.clone(), t, v));
                            }
                        }
                        if local {
                            localize(&mut sh);
                        }
                        let id = match id.strip_prefix("a#") {
                            Some(x) if local && !matches!(sh.body, Body::Unresolved) => x.to_string(),
                            _ => id.clone(),
                        };
                        d.defs.push((id, sh));
                    }
                    let mut order = stmts(&d);
                    if given == 2 {
                        order.reverse();
                    }
                    agree(&d, drive(&d, &order, style).map(|m| Spec::observe(&m)))
                });
            }
        }
    }
}

/// `a#X` -> `X` wherever a name may be local
pub fn localize(s: &mut Shape) {
    let f = |n: &mut String| {
        if let Some(x) = n.strip_prefix("a#") {
            *n = x.to_string();
        }
    };
    for m in s.body.members_mut() {
        f(&mut m.target);
    }
    match &mut s.body {
        Body::Service(x) => {
            x.operations.iter_mut().for_each(f);
            x.resources.iter_mut().for_each(f);
        }
        Body::Operation(x) => {
            x.input.iter_mut().for_each(f);
            x.output.iter_mut().for_each(f);
            x.errors.iter_mut().for_each(f);
        }
        Body::Resource(x) => {
            x.identifiers.values_mut().for_each(f);
            x.life.iter_mut().flatten().for_each(f);
            x.operations.iter_mut().for_each(f);
            x.collection_operations.iter_mut().for_each(f);
            x.resources.iter_mut().for_each(f);
        }
        _ => {}
    }
}

/// The helpers every builder has, by number; what each stands for.
const COMMON: usize = 11;
fn common<T: ShapeTraits>(b: &mut T, k: usize) {
    match k {
        0 => drop(b.documentation("d")),
        1 => drop(b.external_documentation(&[("A", "b"), ("C", "d")])),
        2 => drop(b.deprecated(None, None)),
        3 => drop(b.deprecated(Some("m"), None)),
        4 => drop(b.deprecated(None, Some("s"))),
        5 => drop(b.deprecated(Some("m"), Some("s"))),
        6 => drop(b.private()),
        7 => drop(b.since("2020")),
        8 => drop(b.tagged(&["b", "a"])),
        9 => drop(b.tagged(&[])),
        _ => drop(b.unstable()),
    }
}
fn common_want(k: usize) -> (&'static str, Option<V>) {
    let o = |kv: &[(&str, &str)]| Some(obj(&kv.iter().map(|(k, v)| (*k, s(v))).collect::<Vec<_>>()));
    match k {
        0 => ("smithy.api#documentation", Some(s("d"))),
        1 => ("smithy.api#externalDocumentation", o(&[("A", "b"), ("C", "d")])),
        2 => ("smithy.api#deprecated", o(&[])),
        3 => ("smithy.api#deprecated", o(&[("message", "m")])),
        4 => ("smithy.api#deprecated", o(&[("since", "s")])),
        5 => ("smithy.api#deprecated", o(&[("message", "m"), ("since", "s")])),
        6 => ("smithy.api#private", o(&[])),
        7 => ("smithy.api#since", Some(s("2020"))),
        8 => ("smithy.api#tags", Some(V::Arr(vec![s("b"), s("a")]))),
        9 => ("smithy.api#tags", Some(V::Arr(vec![]))),
        _ => ("smithy.api#unstable", None),
    }
}

/// Every sequence of up to two of the helpers all builders share, on every kind of builder and of
/// member, handed over as it is or as a copy of a reference, built from the builder or from a
/// reference to it, once and twice.
fn shape_helpers(c: &mut Ctx) {
    let mut seqs: Vec<Vec<usize>> = (0..COMMON).map(|i| vec![i]).collect();
    for i in 0..COMMON {
        for j in 0..COMMON {
            seqs.push(vec![i, j]);
            if c.thorough {
                for k in 0..COMMON {
                    seqs.push(vec![i, j, k]);
                }
            }
        }
    }
    const WHERE: [&str; 18] = [
        "simple", "list", "set", "map", "structure", "union", "service", "operation", "resource", "reference", "list member", "set member", "map key", "map value",
        "structure member", "union member", "shape and member", "member and shape",
    ];
    for (w, place) in WHERE.iter().enumerate() {
        for q in &seqs {
            for by_ref in [false, true] {
                c.case_o(&format!("helpers {q:?} on {place} by_ref={by_ref}"), true, || {
                    fn put<T: ShapeTraits>(mut b: T, q: &[usize]) -> T {
                        for k in q {
                            common(&mut b, *k);
                        }
                        b
                    }
                    macro_rules! give {
                        ($b:expr) => {{
                            let mut x = $b;
                            if by_ref {
                                (&mut x).into()
                            } else {
                                x
                            }
                        }};
                    }
                    let mb = |n: &str| -> MemberBuilder { give!(put(MemberBuilder::new(n, "q#Q"), q)) };
                    let mut b = ModelBuilder::new(Version::V10, "a");
                    match w {
                        0 => {
                            b.simple_shape(give!(put(SimpleShapeBuilder::long("S"), q)));
                        }
                        1 => {
                            b.list(give!(put(ListBuilder::new("S", "q#Q"), q)));
                        }
                        2 => {
                            b.set(give!(put(ListBuilder::new("S", "q#Q"), q)));
                        }
                        3 => {
                            b.map(give!(put(MapBuilder::new("S", "q#Q", "q#Q"), q)));
                        }
                        4 => {
                            b.structure(give!(put(StructureBuilder::new("S"), q)));
                        }
                        5 => {
                            b.union(give!(put(StructureBuilder::new("S"), q)));
                        }
                        6 => {
                            b.service(give!(put(ServiceBuilder::new("S", "1"), q)));
                        }
                        7 => {
                            b.operation(give!(put(OperationBuilder::new("S"), q)));
                        }
                        8 => {
                            b.resource(give!(put(ResourceBuilder::new("S"), q)));
                        }
                        9 => {
                            b.reference(give!(put(ReferenceBuilder::new("a#S"), q)));
                        }
                        10 | 11 => {
                            let mut x = ListBuilder::new("S", "z#Z");
                            x.target(mb("member"));
                            if w == 10 {
                                b.list(give!(x));
                            } else {
                                b.set(give!(x));
                            }
                        }
                        12 => {
                            let mut x = MapBuilder::new("S", "z#Z", "q#Q");
                            x.key(mb("key"));
                            b.map(give!(x));
                        }
                        13 => {
                            let mut x = MapBuilder::new("S", "q#Q", "z#Z");
                            x.value(mb("value"));
                            b.map(give!(x));
                        }
                        14 | 15 => {
                            let mut x = StructureBuilder::new("S");
                            x.add_member(mb("m")).member("n", "q#Q");
                            if w == 14 {
                                b.structure(give!(x));
                            } else {
                                b.union(give!(x));
                            }
                        }
                        _ => {
                            let mut x = StructureBuilder::new("S");
                            if w == 16 {
                                x = put(x, q);
                            }
                            x.add_member(mb("m")).member("n", "q#Q");
                            if w == 17 {
                                x = put(x, q);
                            }
                            b.structure(give!(x));
                        }
                    }
                    let mut want: Result<Traits, ()> = Ok(Traits::new());
                    for k in q {
                        let (n, v) = common_want(*k);
                        want = want.and_then(|mut t| {
                            let v = match t.get(n) {
                                None => v,
                                Some(o) => super::merging::combine(o, &v)?,
                            };
                            t.insert(n.to_string(), v);
                            Ok(t)
                        });
                    }
                    let want = want.map(|t| {
                        let e = Traits::new;
                        let q = |n: &str| mem(n, "q#Q");
                        let tm = |n: &str| Mem { traits: t.clone(), ..mem(n, "q#Q") };
                        let (t, body) = match w {
                            0 => (t.clone(), Body::Simple("long".into())),
                            1 => (t.clone(), Body::List(q("member"))),
                            2 => (t.clone(), Body::Set(q("member"))),
                            3 => (t.clone(), Body::Map(q("key"), q("value"))),
                            4 => (t.clone(), Body::Structure(st(&[]))),
                            5 => (t.clone(), Body::Union(st(&[]))),
                            6 => (t.clone(), Body::Service(svc("1"))),
                            7 => (t.clone(), op3(None, None, &[])),
                            8 => (t.clone(), Body::Resource(Res::default())),
                            9 => (t.clone(), Body::Unresolved),
                            10 => (e(), Body::List(tm("member"))),
                            11 => (e(), Body::Set(tm("member"))),
                            12 => (e(), Body::Map(tm("key"), q("value"))),
                            13 => (e(), Body::Map(q("key"), tm("value"))),
                            14 => (e(), Body::Structure(st(&[tm("m"), q("n")]))),
                            15 => (e(), Body::Union(st(&[tm("m"), q("n")]))),
                            _ => (t.clone(), Body::Structure(st(&[tm("m"), q("n")]))),
                        };
                        let mut sp = Spec::default();
                        sp.shapes.insert("a#S".into(), Shape { traits: t, body });
                        sp
                    });
                    let check = |r: Result<Model, atelier_core::error::Error>, what: &str| match (&want, r) {
                        (Ok(w), Ok(m)) => diff(w, &Spec::observe(&m)).map_err(|e| format!("{what}: {e}")),
                        (Err(()), Err(_)) => Ok(()),
                        (Ok(_), Err(e)) => Err(format!("{what}: refused: {e}")),
                        (Err(()), Ok(_)) => Err(format!("{what}: a contradictory trait was accepted")),
                    };
                    if by_ref {
                        check((&mut b).try_into(), "built from a reference")?;
                        check((&mut b).try_into(), "built from a reference again")?;
                    }
                    check(b.try_into(), "built")?;
                    Ok(if want.is_ok() { "built" } else { "refused" })
                });
            }
        }
    }
}

/// Structures and unions whose member calls repeat a name: equal targets merge, others contradict.
fn repeated_members(c: &mut Ctx) {
    let x = |v: i64| Some(("x#t", Some(V::Int(v))));
    let arr = |t: &str| Some(("smithy.api#tags", Some(V::Arr(vec![s(t)]))));
    let targets = [("q#Q", "q#Q"), ("String", "smithy.api#String"), ("smithy.api#String", "smithy.api#String"), ("S", "a#S"), ("a#T", "a#T")];
    let decos: [Option<(&str, Option<V>)>; 5] = [None, x(1), x(2), arr("a"), arr("b")];
    let mut calls: Vec<(&str, usize, usize)> = vec![];
    for n in ["m", "n"] {
        for t in 0..targets.len() {
            for d in 0..decos.len() {
                if n == "m" || (t < 2 && d < 2) {
                    calls.push((n, t, d));
                }
            }
        }
    }
    let k = calls.len();
    let mut seqs: Vec<Vec<usize>> = (0..k).map(|i| vec![i]).collect();
    for i in 0..k {
        for j in 0..k {
            seqs.push(vec![i, j]);
            for l in 0..k {
                if c.thorough || (i * 7 + j * 3 + l) % 3 == 0 {
                    seqs.push(vec![i, j, l]);
                }
            }
        }
    }
    for q in seqs {
        for union in [false, true] {
            let name = format!("members {} of a {}", q.iter().map(|i| format!("{}:{}:{}", calls[*i].0, targets[calls[*i].1].0, calls[*i].2)).collect::<Vec<_>>().join(" "), if union { "union" } else { "structure" });
            c.case_o(&name, true, || {
                let mut want: Result<BTreeMap<String, Mem>, ()> = Ok(BTreeMap::new());
                let mut b = StructureBuilder::new("S");
                for i in &q {
                    let (n, t, d) = calls[*i];
                    let tr = match &decos[d] {
                        None => Traits::new(),
                        Some((k, v)) => traits(&[(*k, v.clone())]),
                    };
                    if let Some((k, v)) = &decos[d] {
                        let mut m = MemberBuilder::new(n, targets[t].0);
                        m.apply_trait(tb(k, v));
                        b.add_member(m);
                    } else {
                        b.member(n, targets[t].0);
                    }
                    want = want.and_then(|mut w| {
                        let m = match w.get(n) {
                            None => Mem { traits: tr, ..mem(n, targets[t].1) },
                            Some(m) if m.target == targets[t].1 => {
                                let mut all = m.traits.clone();
                                for (k, v) in tr {
                                    let v = match all.get(&k) {
                                        None => v,
                                        Some(o) => super::merging::combine(o, &v)?,
                                    };
                                    all.insert(k, v);
                                }
                                Mem { traits: all, ..m.clone() }
                            }
                            Some(_) => return Err(()),
                        };
                        w.insert(n.to_string(), m);
                        Ok(w)
                    });
                }
                let mut mb = ModelBuilder::new(Version::V10, "a");
                if union {
                    mb.union(b);
                } else {
                    mb.structure(b);
                }
                let got: Result<Model, atelier_core::error::Error> = mb.try_into();
                match (want, got) {
                    (Err(()), Err(_)) => Ok("refused"),
                    (Err(()), Ok(m)) => Err(format!("a contradiction was accepted: {}", Spec::observe(&m).show())),
                    (Ok(_), Err(e)) => Err(format!("refused: {e}")),
                    (Ok(w), Ok(m)) => {
                        let g = Spec::observe(&m);
                        let got = g.shapes.get("a#S").ok_or("a#S is missing")?;
                        let w = Shape { traits: Traits::new(), body: if union { Body::Union(w) } else { Body::Structure(w) } };
                        if *got != w {
                            return Err(format!("got {}, expected {}", show_shape("a#S", got), show_shape("a#S", &w)));
                        }
                        Ok("built")
                    }
                }
            });
        }
    }
}

fn typed_helpers() -> Result<(), String> {
    type SF = fn(&mut StructureBuilder, &str);
    let t: [(&str, SF, fn(&str) -> MemberBuilder); 13] = [
        ("Blob", |b, n| drop(b.blob(n)), MemberBuilder::blob),
        ("Boolean", |b, n| drop(b.boolean(n)), MemberBuilder::boolean),
        ("Document", |b, n| drop(b.document(n)), MemberBuilder::document),
        ("String", |b, n| drop(b.string(n)), MemberBuilder::string),
        ("Byte", |b, n| drop(b.byte(n)), MemberBuilder::byte),
        ("Short", |b, n| drop(b.short(n)), MemberBuilder::short),
        ("Integer", |b, n| drop(b.integer(n)), MemberBuilder::integer),
        ("Long", |b, n| drop(b.long(n)), MemberBuilder::long),
        ("Float", |b, n| drop(b.float(n)), MemberBuilder::float),
        ("Double", |b, n| drop(b.double(n)), MemberBuilder::double),
        ("BigInteger", |b, n| drop(b.big_integer(n)), MemberBuilder::big_integer),
        ("BigDecimal", |b, n| drop(b.big_decimal(n)), MemberBuilder::big_decimal),
        ("Timestamp", |b, n| drop(b.timestamp(n)), MemberBuilder::timestamp),
    ];
    let mut b = ModelBuilder::new(Version::V10, "a");
    let mut x = StructureBuilder::new("S");
    let mut want = BTreeMap::new();
    for (n, f, g) in &t {
        f(&mut x, &format!("f{n}"));
        x.add_member(g(&format!("g{n}")));
        for p in ["f", "g"] {
            let k = format!("{p}{n}");
            want.insert(k.clone(), mem(&k, &format!("smithy.api#{n}")));
        }
    }
    // helpers that apply a trait to what they are called on
    let mut m = MemberBuilder::new("r", "q#Q");
    m.required().documentation("d").deprecated(None, None).private().since("x").tagged(&["t"]).unstable().external_documentation(&[("a", "b")]);
    x.add_member(m);
    let e = || Some(V::Obj(BTreeMap::new()));
    let common = [
        ("smithy.api#documentation", Some(s("d"))),
        ("smithy.api#deprecated", e()),
        ("smithy.api#private", e()),
        ("smithy.api#since", Some(s("x"))),
        ("smithy.api#tags", Some(V::Arr(vec![s("t")]))),
        ("smithy.api#unstable", None),
        ("smithy.api#externalDocumentation", Some(obj(&[("a", s("b"))]))),
    ];
    let mut rt = traits(&common);
    rt.insert("smithy.api#required".into(), e());
    want.insert("r".into(), Mem { traits: rt, ..mem("r", "q#Q") });
    x.sensitive().error_source(ErrorSource::Server);
    b.structure(x);
    let mut sp = Spec::default();
    let sens = ("smithy.api#sensitive", e());
    sp.shapes.insert("a#S".into(), Shape { traits: traits(&[sens.clone(), ("smithy.api#error", Some(s("server")))]), body: Body::Structure(want) });
    let mut x = SimpleShapeBuilder::string("Str");
    x.boxed().sensitive().streaming();
    b.simple_shape(x);
    sp.shapes.insert("a#Str".into(), Shape { traits: traits(&[sens.clone(), ("smithy.api#box", e()), ("smithy.api#streaming", e())]), body: Body::Simple("string".into()) });
    let mut x = ListBuilder::new("L", "q#Q");
    x.sensitive().unique_items();
    b.list(x);
    sp.shapes.insert("a#L".into(), Shape { traits: traits(&[sens.clone(), ("smithy.api#uniqueItems", e())]), body: Body::List(mem("member", "q#Q")) });
    let pag = ("smithy.api#paginated", Some(obj(&[("inputToken", s("i")), ("outputToken", s("o")), ("items", s("t")), ("pageSize", s("p"))])));
    let mut x = ServiceBuilder::new("Svc", "1");
    x.sensitive().paginated(Some("i"), Some("o"), Some("t"), Some("p")).title("T");
    b.service(x);
    sp.shapes.insert("a#Svc".into(), Shape { traits: traits(&[sens.clone(), pag.clone(), ("smithy.api#title", Some(s("T")))]), body: Body::Service(svc("1")) });
    let mut x = OperationBuilder::new("Opr");
    x.idempotent().readonly().sensitive().paginated(Some("i"), Some("o"), Some("t"), Some("p"));
    b.operation(x);
    sp.shapes.insert(
        "a#Opr".into(),
        Shape { traits: traits(&[sens.clone(), pag, ("smithy.api#idempotent", e()), ("smithy.api#readonly", e())]), body: op3(None, None, &[]) },
    );
    let mut x = ResourceBuilder::new("Rsc");
    x.sensitive().no_replace().title("T");
    b.resource(x);
    sp.shapes.insert(
        "a#Rsc".into(),
        Shape { traits: traits(&[sens, ("smithy.api#noReplace", e()), ("smithy.api#title", Some(s("T")))]), body: Body::Resource(Res::default()) },
    );
    // value builders
    let mut ab = ValueBuilder::array();
    ab.push(v_to(&V::None)).number(Number::Float(0.5)).integer(3).float(1.0).boolean(true).string("z");
    let av: atelier_core::model::values::Value = ab.into();
    let mut ob = ValueBuilder::object();
    ob.insert("a", av.clone()).number("n", Number::Integer(1)).integer("i", 2).float("f", 0.25).boolean("b", false).string("s", "t").reference("r", "x#Y");
    b.meta_data("arr".into(), av);
    b.meta_data("obj".into(), ob.into());
    b.meta_data("n".into(), ValueBuilder::number(Number::Integer(4)).into());
    b.meta_data("i".into(), ValueBuilder::integer(5).into());
    b.meta_data("f".into(), ValueBuilder::float(0.5).into());
    b.meta_data("b".into(), ValueBuilder::boolean(true).into());
    b.meta_data("s".into(), ValueBuilder::string("q").into());
    let arr = V::Arr(vec![V::None, V::Float(F(0.5)), V::Int(3), V::Float(F(1.0)), V::Bool(true), s("z")]);
    sp.metadata = [
        ("arr", arr.clone()),
        ("obj", obj(&[("a", arr), ("n", V::Int(1)), ("i", V::Int(2)), ("f", V::Float(F(0.25))), ("b", V::Bool(false)), ("s", s("t")), ("r", s("x#Y"))])),
        ("n", V::Int(4)),
        ("i", V::Int(5)),
        ("f", V::Float(F(0.5))),
        ("b", V::Bool(true)),
        ("s", s("q")),
    ]
    .into_iter()
    .map(|(k, v)| (k.to_string(), v))
    .collect();
    let m: Model = b.try_into().map_err(|e: atelier_core::error::Error| e.to_string())?;
    diff(&sp, &Spec::observe(&m))
}
