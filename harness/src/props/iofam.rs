//! The family of models shared by the readers and writers.
use super::fam::*;
use super::merging::decorate;
use crate::kit::gen::*;
use crate::kit::spec::*;
use std::collections::BTreeMap;

/// A trait without a value and a trait with an empty object are the same annotation.
pub fn norm_traits(t: &mut Traits) {
    for v in t.values_mut() {
        if v.is_none() {
            *v = Some(V::Obj(BTreeMap::new()));
        }
    }
}
pub fn norm(sp: &Spec) -> Spec {
    let mut o = sp.clone();
    for sh in o.shapes.values_mut() {
        norm_traits(&mut sh.traits);
        for m in sh.body.members_mut() {
            norm_traits(&mut m.traits);
        }
    }
    o
}

/// Strings that textual formats tend to get wrong.
pub fn awkward(thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = (0u32..0x20).filter_map(char::from_u32).map(|c| c.to_string()).collect();
    let core = ["\"", "\\", "\n", "\r", "\t", " ", "'", "{", "}", "u", "0", "n", "$", "é", "\u{1F600}", "\u{1}"];
    let more = ["/", "*", "#", "@", "`", ",", ":", ";", "<", ">", "&", "(", ")", "[", "]", "=", "|", "%", "\u{7f}", "\u{80}", "\u{a0}", "\u{ad}", "\u{200b}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "ß", "İ", "\u{301}"];
    v.extend(core.iter().chain(&more).map(|s| s.to_string()));
    for a in core {
        for b in core {
            v.push(format!("{a}{b}"));
        }
    }
    let t3 = ["\"", "\\", "\n", "n", "u"];
    for a in t3 {
        for b in t3 {
            for c in t3 {
                v.push(format!("{a}{b}{c}"));
            }
        }
    }
    if thorough {
        for a in core.iter().chain(&more) {
            for b in core.iter().chain(&more) {
                v.push(format!("{a}{b}"));
                v.push(format!("x{a}y{b}z"));
            }
        }
    }
    v.extend(
        ["", "a", "a b", "null", "true", "None", "${x}", "\\u0041", "\\u{41}", "\\n", "\"\"\"", "\"\"\"\n a\n\"\"\"", "// not a comment", "/// nor this", "/* x */", "-0", "1e5", "a\r\nb", " lead", "trail ", "\n  indented\n    more\n", "key: value", "a=b", "<![CDATA[x]]>", "&amp;", "](x)", "a#B", "a#B$c", "smithy.api#String", "C:\\new\\table", "\"quoted\"", "tab\there", "line\n", "ünïcödé", "日本語"]
            .iter()
            .map(|s| s.to_string()),
    );
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

pub fn ints() -> Vec<i64> {
    let mut v = vec![0, 1, -1, 9, 10, 127, 128, -128, -129, 255, 256, 32767, 32768, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1];
    v.extend((1..19).map(|k| 10i64.pow(k)));
    v.extend((1..63).map(|k| 1i64 << k));
    v
}

pub fn floats() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 0.1, 0.2, 0.3, 1.0 / 3.0, 3.14, -2.718281828459045, 100.0, 1e5, 1e10, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 123456789.125, 9007199254740993.0, 1e-5, 1e-6, 1e-7, 1e-10, 1e100, 1e-100, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 2.2250738585072011e-308, i64::MAX as f64, i64::MIN as f64, u64::MAX as f64, 123456.789e3];
    v.extend((1..10).map(|k| k as f64 / 10.0));
    // known to be misread by a decimal parser that is not correctly rounding
    v.extend([31.245270191439438, 121.48791951161945]);
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(x.to_bits()));
    v
}

/// Every value tree of up to `n` nodes over small atoms and two keys.
pub fn trees(n: usize) -> Vec<V> {
    let mut by: Vec<Vec<V>> = vec![vec![]];
    let atoms = vec![V::None, V::Bool(true), V::Bool(false), V::Int(0), V::Int(-1), V::Float(F(1.5)), s(""), s("a"), V::Arr(vec![]), V::Obj(BTreeMap::new())];
    by.push(atoms);
    for k in 2..=n {
        let mut out = vec![];
        // one child
        for x in &by[k - 1] {
            out.push(V::Arr(vec![x.clone()]));
            out.push(obj(&[("a", x.clone())]));
            out.push(obj(&[("b c", x.clone())]));
        }
        // two children
        for i in 1..k - 1 {
            for x in &by[i] {
                for y in &by[k - 1 - i] {
                    out.push(V::Arr(vec![x.clone(), y.clone()]));
                    out.push(obj(&[("a", x.clone()), ("b c", y.clone())]));
                }
            }
        }
        by.push(out);
    }
    by.concat()
}

pub const POSITIONS: [&str; 9] = ["shape", "list", "set", "key", "value", "structure", "union", "metadata", "unresolved"];

/// A model with `v` at the given position (`None`: a trait without a value).
pub fn at(pos: &str, v: Option<V>) -> Spec {
    let tr = traits(&[("t.u#tr", v.clone())]);
    let m = |n: &str, t: &str, tr: &Traits| Mem { name: n.into(), target: t.into(), traits: tr.clone() };
    let none = Traits::new();
    let one = |b: Body| Spec::default().with("a.b#S", b);
    match pos {
        "shape" => Spec { shapes: BTreeMap::from([("a.b#S".to_string(), Shape { traits: tr, body: Body::Simple("string".into()) })]), ..Default::default() },
        "unresolved" => Spec { shapes: BTreeMap::from([("a.b#S".to_string(), Shape { traits: tr, body: Body::Unresolved })]), ..Default::default() },
        "list" => one(Body::List(m("member", "a.b#T", &tr))),
        "set" => one(Body::Set(m("member", "a.b#T", &tr))),
        "key" => one(Body::Map(m("key", "a.b#T", &tr), m("value", "a.b#U", &none))),
        "value" => one(Body::Map(m("key", "a.b#T", &none), m("value", "a.b#U", &tr))),
        "structure" => one(Body::Structure(st(&[m("x", "a.b#T", &tr), m("y", "a.b#U", &none)]))),
        "union" => one(Body::Union(st(&[m("x", "a.b#T", &none), m("y", "a.b#U", &tr)]))),
        "metadata" => Spec { metadata: BTreeMap::from([("k".to_string(), v.unwrap_or(V::None))]), ..Default::default() }.with("a.b#S", Body::Simple("blob".into())),
        _ => panic!("harness: position {pos}"),
    }
}

/// Models with a number that is not finite somewhere: neither JSON nor the IDL has a form for it.
pub fn not_finite() -> Vec<(String, Spec)> {
    let mut out = vec![];
    for f in [f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        let v = V::Float(F(f));
        let deep = obj(&[("a", V::Arr(vec![V::Int(1), obj(&[("b", v.clone())])]))]);
        for p in POSITIONS {
            for (w, v) in [("number", v.clone()), ("array", V::Arr(vec![V::None, v.clone()])), ("object", obj(&[("x", v.clone()), ("y", V::Int(1))])), ("deep", deep.clone())] {
                out.push((format!("{p} <- {f} in {w}"), at(p, Some(v))));
            }
        }
    }
    out
}

pub const KEYWORDS: [&str; 58] = [
    "namespace", "use", "apply", "metadata", "list", "set", "map", "structure", "union", "service", "operation", "resource", "string", "blob", "boolean", "document", "byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal", "timestamp", "member", "key", "value", "version", "operations",
    "resources", "rename", "input", "output", "errors", "identifiers", "create", "put", "read", "update", "delete", "collectionOperations", "true", "false", "null", "type", "target", "traits", "members", "smithy", "shapes", "trait", "_a", "__a9", "A_1_", "unresolved", "simple", "apply_",
];

/// A model with everything in it, all in one namespace but for some targets and traits.
pub fn kitchen() -> Spec {
    let bodies = body_variants();
    let mut sp = Spec::default();
    sp.metadata.insert("authors".into(), V::Arr(vec![s("x"), s("y")]));
    sp.metadata.insert("k y".into(), obj(&[("z", V::None), ("a", V::Float(F(1.25))), ("b", V::Bool(true))]));
    for (i, b) in bodies.iter().enumerate().filter(|(i, _)| i % 6 == 0) {
        let v = match i % 4 {
            0 => None,
            1 => Some(s("doc")),
            2 => Some(V::Arr(vec![V::Int(3)])),
            _ => Some(obj(&[("q", V::Bool(false))])),
        };
        let mut d = decorate(b, "a#tr", v);
        d.traits.insert("smithy.api#deprecated".into(), None);
        d.traits.insert("other.ns#tr".into(), Some(s("1")));
        sp.shapes.insert(format!("a#Shape{i}"), d);
    }
    sp.shapes.insert("a#T".into(), Shape { traits: Traits::new(), body: Body::Simple("string".into()) });
    sp
}

/// Models in one namespace (`a`, or `a.b`), targets and traits anywhere.
pub fn single(thorough: bool) -> Vec<(String, Spec)> {
    let mut out: Vec<(String, Spec)> = vec![];
    // every body variant, bare and with traits
    let deco: Vec<Option<V>> = vec![None, Some(V::Obj(BTreeMap::new())), Some(V::None), Some(s("text")), Some(V::Arr(vec![V::Int(1), s("x")])), Some(obj(&[("a", V::Int(1))]))];
    for (i, b) in body_variants().iter().enumerate() {
        let sp = Spec::default().with("a#S", b.clone());
        out.push((format!("body {}", sp.show()), sp));
        for (j, v) in deco.iter().enumerate() {
            if thorough || i < 40 || (i + j) % deco.len() == 0 {
                let mut sp = Spec::default();
                sp.shapes.insert("a#S".into(), decorate(b, "a#tr", v.clone()));
                out.push((format!("body {}", sp.show()), sp));
            }
        }
    }
    // value trees at every position
    for (i, v) in trees(if thorough { 4 } else { 3 }).iter().enumerate() {
        for (j, p) in POSITIONS.iter().enumerate() {
            if thorough || i < 60 || i % POSITIONS.len() == j {
                out.push((format!("{p} <- {}", show_v(v)), at(p, Some(v.clone()))));
            }
        }
    }
    for p in POSITIONS {
        if p != "metadata" {
            out.push((format!("{p} <- (no value)"), at(p, None)));
        }
    }
    // numbers
    for p in ["shape", "structure", "metadata"] {
        for i in ints() {
            out.push((format!("{p} <- {i}"), at(p, Some(V::Int(i)))));
        }
        for f in floats() {
            out.push((format!("{p} <- {f:?}f"), at(p, Some(V::Float(F(f))))));
        }
    }
    // strings
    for t in awkward(thorough) {
        for p in ["shape", "structure", "value", "metadata"] {
            out.push((format!("{p} <- {t:?}"), at(p, Some(V::Str(t.clone())))));
        }
        out.push((format!("array <- {t:?}"), at("shape", Some(V::Arr(vec![V::Str(t.clone()), s("z")])))));
        out.push((format!("object key <- {t:?}"), at("shape", Some(V::Obj(BTreeMap::from([(t.clone(), V::Int(1)), (format!("{t}z"), s("w"))]))))));
        let mut sp = at("shape", None);
        sp.metadata = BTreeMap::from([(t.clone(), V::Int(1)), (format!("z{t}"), s("v"))]);
        out.push((format!("metadata key <- {t:?}"), sp));
        if !t.is_empty() {
            let sp = Spec::default().with("a#S", Body::Service(svc(&t)));
            out.push((format!("service version <- {t:?}"), sp));
        }
        let mut sp = Spec::default();
        sp.shapes.insert("a#S".into(), Shape { traits: traits(&[("smithy.api#documentation", Some(V::Str(t.clone())))]), body: Body::Structure(st(&[Mem { name: "m".into(), target: "a#S".into(), traits: traits(&[("smithy.api#documentation", Some(V::Str(t.clone())))]) }])) });
        out.push((format!("documentation <- {t:?}"), sp));
    }
    // keys and strings that are almost the same, next to each other
    let near = ["k", "k ", " k", "K", "k\t", "", " ", "kk", "k.k", "k,k", "\u{212a}", "k\u{301}", "k\u{a0}", "\"k\"", "'k'", "k\\", "k:", "0", "00", "1e0", "true", "null", "_k", "__k", "k_", "$k", "-k", "k-", ".k", "#k", "@k", "k#k", "/k", "k/k", "k=k", "[k]", "k[0]", "{k}", "<k>", "|k", "k|k", "`k`", "*k*", "k;", "&k", "%6b", "~k", "!k", "?k", "+k", "^k"];
    for (i, a) in near.iter().enumerate() {
        for b in near[i + 1..].iter().filter(|b| thorough || i < 22 && near[..22].contains(b) || i == 0) {
            let o = obj(&[(a, V::Int(1)), (b, s("w"))]);
            for (what, v) in [("object", o.clone()), ("inner object", obj(&[("o", V::Arr(vec![o.clone()]))])), ("array", V::Arr(vec![s(a), s(b), s(a)])), ("inner array", obj(&[("a", V::Arr(vec![s(b), s(a)]))]))] {
                out.push((format!("near {what} {a:?} {b:?}"), at("shape", Some(v))));
            }
            let mut sp = at("shape", None);
            sp.metadata = BTreeMap::from([(a.to_string(), V::Int(1)), (b.to_string(), s("w"))]);
            out.push((format!("near metadata {a:?} {b:?}"), sp));
        }
    }
    // names that look like syntax
    for k in KEYWORDS {
        for v in [V::Int(1), s("x"), V::None, V::Arr(vec![s(k)]), obj(&[(k, s(k))])] {
            out.push((format!("key {k} of {}", show_v(&v)), at("shape", Some(obj(&[(k, v.clone())])))));
            out.push((format!("member key {k} of {}", show_v(&v)), at("structure", Some(obj(&[(k, v.clone()), ("zz", V::Int(2))])))));
            out.push((format!("inner key {k} of {}", show_v(&v)), at("value", Some(V::Arr(vec![obj(&[(k, v.clone())])])))));
            let mut sp = at("metadata", Some(obj(&[(k, v.clone())])));
            sp.metadata.insert(k.into(), v);
            out.push((format!("metadata key {k}: {}", sp.show()), sp));
        }
        for b in plain_bodies() {
            if matches!(b, Body::Simple(_)) && !thorough && b.kind() != "string" {
                continue;
            }
            let sp = Spec::default().with(&format!("a#{k}"), b);
            out.push((format!("name {}", sp.show()), sp));
        }
        let t = format!("a#{k}");
        let refs = [
            Body::List(mem("member", &t)),
            Body::Set(mem("member", &t)),
            Body::Map(mem("key", &t), mem("value", &t)),
            Body::Structure(st(&[mem(k, &t)])),
            Body::Union(st(&[mem(k, &t), mem("x", "smithy.api#String")])),
            Body::Service(Svc { version: "1".into(), operations: vec![t.clone()], resources: vec![t.clone()], renames: smap(&[(&t, k)]) }),
            op3(Some(&t), Some(&t), &[&t]),
            Body::Resource(Res { identifiers: smap(&[(k, &t)]), life: std::array::from_fn(|_| Some(t.clone())), operations: vec![t.clone()], collection_operations: vec![t.clone()], resources: vec![t.clone()] }),
        ];
        for b in refs {
            let mut sp = Spec::default().with("a#S", b.clone());
            out.push((format!("ref {}", sp.show()), sp.clone()));
            // and with that shape defined, and applied as a trait
            sp = sp.with(&t, Body::Simple("string".into()));
            sp.shapes.get_mut("a#S").unwrap().traits = traits(&[(&t, Some(V::Int(1)))]);
            out.push((format!("ref {}", sp.show()), sp));
        }
    }
    // names clashing with names of the prelude or of other namespaces
    for (own, targets) in [
        ("a#String", ["smithy.api#String", "a#String", "b#String"]),
        ("a#Integer", ["smithy.api#Integer", "a#Integer", "b.c#Integer"]),
        ("a#required", ["smithy.api#required", "a#required", "b#required"]),
        ("a#Thing", ["smithy.api#Thing", "a#Thing", "b#Thing"]),
        ("a#PrimitiveLong", ["smithy.api#PrimitiveLong", "a#PrimitiveLong", "c.d.e#PrimitiveLong"]),
    ] {
        for defined in [false, true] {
            for bits in 1..8u32 {
                let ts: Vec<&str> = (0..3).filter(|i| bits & (1 << i) != 0).map(|i| targets[i]).collect();
                let ms: Vec<Mem> = ts
                    .iter()
                    .enumerate()
                    .map(|(i, t)| Mem { name: format!("m{i}"), target: t.to_string(), traits: ts.iter().map(|x| (x.to_string(), Some(V::Int(i as i64)))).collect() })
                    .collect();
                let mut sp = Spec::default().with("a#S", Body::Structure(st(&ms)));
                sp = sp.with("a#L", Body::Map(mem("key", ts[0]), mem("value", ts[ts.len() - 1])));
                sp = sp.with("a#O", Body::Operation(Op { input: Some(ts[0].into()), output: Some(ts[ts.len() - 1].into()), errors: ts.iter().map(|s| s.to_string()).collect() }));
                sp = sp.with("a#V", Body::Service(Svc { version: "1".into(), operations: ts.iter().map(|s| s.to_string()).collect(), resources: ts.iter().map(|s| s.to_string()).collect(), renames: ts.iter().map(|t| (t.to_string(), "Other".to_string())).collect() }));
                if defined {
                    sp = sp.with(own, Body::Simple("integer".into()));
                }
                out.push((format!("names {}", sp.show()), sp));
            }
        }
    }
    // prelude documentation and other traits together, at shape and member
    for bits in 0..16u32 {
        let all = [("smithy.api#documentation", Some(s("text"))), ("smithy.api#required", None), ("a#tr", Some(V::Arr(vec![]))), ("b.c#tr", Some(obj(&[("k", V::None)])))];
        let tr = traits(&all.iter().enumerate().filter(|(i, _)| bits & (1 << i) != 0).map(|(_, x)| x.clone()).collect::<Vec<_>>());
        for b in plain_bodies() {
            if matches!(b, Body::Simple(_)) && b.kind() != "string" {
                continue;
            }
            let mut b = b;
            for m in b.members_mut() {
                m.traits = tr.clone();
            }
            let mut sp = Spec::default();
            sp.shapes.insert("a#S".into(), Shape { traits: tr.clone(), body: b });
            out.push((format!("traits {}", sp.show()), sp));
        }
    }
    // every pair of kinds
    let bodies = plain_bodies();
    for x in &bodies {
        for y in &bodies {
            let sp = Spec::default().with("a#A", x.clone()).with("a#B", y.clone());
            out.push((format!("pair {}", sp.show()), sp));
        }
    }
    out.extend(prelude_traits());
    out.extend(trait_pairs(thorough));
    // targets that differ in where the name begins, or ends, only
    let close = ["a#T", "aa#T", "a.a#T", "a#TT", "b#T", "a#aT", "a.a#b", "a#T_", "a#T0"];
    for (i, x) in close.iter().enumerate() {
        for y in &close[i + 1..] {
            let (l, ln) = (|k: usize| [x, y][k].to_string(), vec![x.to_string(), y.to_string()]);
            let mut sp = Spec::default()
                .with("a#_S", Body::Structure(st(&[mem("m", x), mem("n", y), mem("o", x)])))
                .with("a#_M", Body::Map(mem("key", x), mem("value", y)))
                .with("a#_L", Body::List(mem("member", x)))
                .with("a#_W", Body::Set(mem("member", y)))
                .with("a#_O", op3(Some(x), Some(y), &[x, y]))
                .with("a#_R", Body::Resource(Res { identifiers: smap(&[("i", x), ("j", y)]), life: std::array::from_fn(|k| Some(l(k % 2))), operations: ln.clone(), collection_operations: ln.clone(), resources: ln.clone() }))
                .with("a#_V", Body::Service(Svc { version: "1".into(), operations: ln.clone(), resources: ln.clone(), renames: smap(&[(x, "X"), (y, "Y")]) }));
            out.push((format!("close targets {x} {y}"), sp.clone()));
            sp.shapes.get_mut("a#_S").unwrap().traits = traits(&[(x, Some(s("x"))), (y, Some(s("y")))]);
            if x.starts_with("a#") {
                sp = sp.with(x, Body::Structure(st(&[mem("m", y)])));
            }
            if y.starts_with("a#") {
                sp = sp.with(y, Body::Simple("string".into()));
            }
            out.push((format!("close names {x} {y}"), sp));
        }
    }
    // traits applied to what is not defined, members among it
    for ids in [&["a#Gone$x"][..], &["a#Gone$member_one", "a#Gone"], &["a#S$blacklist", "a#Master$slave"], &["b.c#Gone$x", "a#Gone$x"]] {
        for v in [None, Some(s("text")), Some(obj(&[("a", V::Int(1))]))] {
            let mut sp = Spec::default().with("a#T", Body::Simple("string".into()));
            for id in ids {
                sp.shapes.insert(id.to_string(), Shape { traits: traits(&[("a#Bad_trait", v.clone()), ("smithy.api#documentation", Some(s("d")))]), body: Body::Unresolved });
            }
            out.push((format!("applied {}", sp.show()), sp));
        }
    }
    out.push(("kitchen sink".into(), kitchen()));
    for (id, sh) in kitchen().shapes {
        let mut k = kitchen();
        k.shapes.remove(&id);
        let _ = sh;
        out.push((format!("kitchen sink without {id}"), k));
    }
    out.extend(sizes(thorough));
    out
}

/// The traits of the prelude, with values of the right and of other kinds.
pub const PRELUDE_TRAITS: [&str; 64] = [
    "auth", "authDefinition", "box", "cors", "default", "deprecated", "documentation", "endpoint", "enum", "error", "eventHeader", "eventPayload", "examples", "externalDocumentation", "hostLabel", "http", "httpApiKeyAuth", "httpBasicAuth", "httpBearerAuth", "httpChecksumRequired", "httpDigestAuth", "httpError",
    "httpHeader", "httpLabel", "httpPayload", "httpPrefixHeaders", "httpQuery", "httpResponseCode", "idRef", "idempotencyToken", "idempotent", "jsonName", "length", "mediaType", "noReplace", "optionalAuth", "paginated", "pattern", "private", "protocolDefinition", "range", "readonly", "recommended", "references",
    "required", "requiresLength", "resourceIdentifier", "retryable", "sensitive", "since", "sparse", "streaming", "suppress", "tags", "timestampFormat", "title", "trait",
    "uniqueItems", "unstable", "xmlAttribute", "xmlFlattened", "xmlName", "xmlNamespace", "internal",
];
/// A service, resource and operation with all that they refer to, of every kind.
pub fn web() -> Spec {
    let s = |x: &str| x.to_string();
    Spec::default()
        .with("a#V", Body::Service(Svc { version: "1".into(), operations: vec![s("a#O")], resources: vec![s("a#R")], renames: smap(&[("a#T", "T2")]) }))
        .with("a#R", Body::Resource(Res { identifiers: smap(&[("i", "a#T")]), life: [None, None, Some(s("a#O")), None, None, None], operations: vec![s("a#O")], collection_operations: vec![s("a#P")], resources: vec![s("a#Q")] }))
        .with("a#Q", Body::Resource(Res::default()))
        .with("a#O", op3(Some("a#I"), Some("a#U"), &["a#E"]))
        .with("a#P", op3(Some("a#L"), None, &[]))
        .with("a#I", Body::Structure(st(&[mem("m", "a#T"), mem("n", "a#M")])))
        .with("a#U", Body::Union(st(&[mem("m", "a#L"), mem("n", "a#W")])))
        .with("a#E", Body::Structure(st(&[mem("m", "a#G")])))
        .with("a#L", Body::List(mem("member", "a#T")))
        .with("a#W", Body::Set(mem("member", "a#T")))
        .with("a#M", Body::Map(mem("key", "a#T"), mem("value", "a#I")))
        .with("a#T", Body::Simple("string".into()))
        .with("a#G", Body::Unresolved)
}
/// Every trait of the prelude at every shape and member of `web`, and all at once.
pub fn prelude_traits() -> Vec<(String, Spec)> {
    let mut out = vec![("web".to_string(), web())];
    let ids: Vec<String> = web().shapes.keys().cloned().collect();
    let values = [None, Some(s("client")), Some(V::Bool(false)), Some(V::Arr(vec![s("x")])), Some(obj(&[("message", s("m"))])), Some(V::Int(0)), Some(s("")), Some(V::None), Some(V::Bool(true)), Some(V::Float(F(1.0)))];
    for (k, t) in PRELUDE_TRAITS.iter().enumerate() {
        let t = format!("smithy.api#{t}");
        for (j, v) in values.iter().enumerate() {
            let mut everywhere = web();
            for (i, id) in ids.iter().enumerate() {
                let sh = everywhere.shapes.get_mut(id).unwrap();
                sh.traits.insert(t.clone(), v.clone());
                for m in sh.body.members_mut() {
                    m.traits.insert(t.clone(), v.clone());
                }
                // one place at a time, without a value and with one of the values
                if j == 0 || (i + j + k) % 9 == 0 {
                    let mut one = web();
                    one.shapes.get_mut(id).unwrap().traits.insert(t.clone(), v.clone());
                    out.push((format!("web {t}={} at {id}", v.as_ref().map(show_v).unwrap_or_default()), one));
                    let n = web().shapes[id].body.members().len();
                    for l in 0..n {
                        let mut one = web();
                        one.shapes.get_mut(id).unwrap().body.members_mut().remove(l).traits.insert(t.clone(), v.clone());
                        out.push((format!("web {t}={} at {id} member {l}", v.as_ref().map(show_v).unwrap_or_default()), one));
                    }
                }
            }
            out.push((format!("web {t}={} everywhere", v.as_ref().map(show_v).unwrap_or_default()), everywhere));
        }
    }
    out
}

/// Two traits of the prelude together, on a shape of every kind and on members.
pub fn trait_pairs(thorough: bool) -> Vec<(String, Spec)> {
    let lead = ["documentation", "externalDocumentation", "trait", "error", "required", "box", "deprecated", "private", "internal", "readonly", "idempotent", "tags", "title"];
    let value = |t: &str| match t {
        "documentation" | "title" | "since" | "pattern" | "mediaType" => Some(s("text")),
        "error" => Some(s("client")),
        "externalDocumentation" => Some(obj(&[("one", s("http://x/1")), ("two", s("http://x/2")), ("six", s("http://x/2"))])),
        "deprecated" | "trait" | "length" | "range" => Some(V::Obj(BTreeMap::new())),
        "tags" => Some(V::Arr(vec![s("x"), s("y")])),
        "http" => Some(obj(&[("code", V::Int(200)), ("uri", s("/"))])),
        _ => None,
    };
    let mut out = vec![];
    for (i, x) in PRELUDE_TRAITS.iter().enumerate() {
        for y in &PRELUDE_TRAITS[i + 1..] {
            if thorough || lead.contains(x) || lead.contains(y) {
                let mut sp = web();
                let t = traits(&[(&format!("smithy.api#{x}"), value(x)), (&format!("smithy.api#{y}"), value(y))]);
                for sh in sp.shapes.values_mut() {
                    sh.traits = t.clone();
                    for m in sh.body.members_mut() {
                        m.traits = t.clone();
                    }
                }
                out.push((format!("web with {x} and {y}"), sp));
            }
        }
    }
    out
}

/// Models in which everything that can be repeated is, up to counts that cross the usual boundaries
/// (one and two digits, line widths, small tables).
pub fn sizes(thorough: bool) -> Vec<(String, Spec)> {
    let mut out: Vec<(String, Spec)> = vec![];
    let mut counts: Vec<usize> = (3..=13).chain([16, 17, 26, 32, 33, 64, 65, 100, 101]).collect();
    if thorough {
        counts.extend((14..=64).chain([127, 128, 129, 255, 256, 257]));
        counts.sort_unstable();
        counts.dedup();
    }
    let one = |b: Body| Spec::default().with("a#S", b);
    for &n in &counts {
        let ids = |p: &str| -> Vec<String> { (0..n).map(|i| format!("{}#{p}{i}", ["a", "b", "smithy.api"][i % 3])).collect() };
        let ms: Vec<Mem> = (0..n).map(|i| Mem { name: format!("m{i}"), target: format!("a#T{}", n - i), traits: if i % 3 == 1 { traits(&[("a#tr", Some(V::Int(i as i64)))]) } else { Traits::new() } }).collect();
        let tr: Traits = (0..n).map(|i| (format!("{}#t{i}", ["a", "b.c"][i % 2]), if i % 4 == 0 { None } else { Some(V::Int(i as i64)) })).collect();
        let renames: BTreeMap<String, String> = (0..n).map(|i| (format!("b#X{i}"), format!("Y{}", n - i))).collect();
        let mut add = |what: &str, sp: Spec| out.push((format!("{n} {what}"), sp));
        add("structure members", one(Body::Structure(st(&ms))));
        add("union members", one(Body::Union(st(&ms))));
        add("service operations", one(Body::Service(Svc { version: "1".into(), operations: ids("Op"), ..Default::default() })));
        add("service resources", one(Body::Service(Svc { version: "1".into(), resources: ids("Re"), ..Default::default() })));
        add("renames", one(Body::Service(Svc { version: "1".into(), renames, ..Default::default() })));
        add("errors", one(Body::Operation(Op { errors: ids("Er"), ..Default::default() })));
        add("resource identifiers", one(Body::Resource(Res { identifiers: (0..n).map(|i| (format!("i{i}"), format!("a#T{}", n - i))).collect(), ..Default::default() })));
        add("resource operations", one(Body::Resource(Res { operations: ids("Op"), ..Default::default() })));
        add("collection operations", one(Body::Resource(Res { collection_operations: ids("Op"), ..Default::default() })));
        add("resource resources", one(Body::Resource(Res { resources: ids("Re"), ..Default::default() })));
        let mut sp = Spec::default();
        sp.shapes.insert("a#S".into(), Shape { traits: tr.clone(), body: Body::Structure(st(&[Mem { name: "m".into(), target: "a#T".into(), traits: tr.clone() }])) });
        add("traits", sp);
        let mut sp = Spec::default();
        sp.shapes.insert("a#S".into(), Shape { traits: tr.clone(), body: Body::Unresolved });
        add("applied traits", sp);
        let mut sp = Spec::default();
        let bodies = plain_bodies();
        for i in 0..n {
            sp = sp.with(&format!("a#S{i}"), bodies[i % bodies.len()].clone());
        }
        add("shapes", sp);
        let mut sp = one(Body::Simple("string".into()));
        sp.metadata = (0..n).map(|i| (format!("k{i}"), V::Int((n - i) as i64))).collect();
        add("metadata keys", sp);
        let arr = V::Arr((0..n).map(|i| if i % 5 == 4 { s(&i.to_string()) } else { V::Int((i / 2) as i64) }).collect());
        let ob = V::Obj((0..n).map(|i| (format!("k{i}"), V::Int((n - i) as i64))).collect());
        let text = "word ".repeat(n);
        let lines = (0..n).map(|i| format!("line {i}")).collect::<Vec<_>>().join("\n");
        let solid = "x".repeat(n * 5);
        let mut deep = V::Arr(vec![V::Int(n as i64), s("z")]);
        for i in 0..n.min(40) {
            deep = if i % 2 == 0 { obj(&[("a", deep), ("b c", V::Int(i as i64))]) } else { V::Arr(vec![V::None, deep, V::Int(i as i64)]) };
        }
        for (what, v) in [("elements", arr), ("keys", ob), ("words", s(&text)), ("lines", s(&lines)), ("x5 characters", s(&solid)), ("levels", deep)] {
            for p in ["shape", "structure", "metadata"] {
                out.push((format!("{p} <- {n} {what}"), at(p, Some(v.clone()))));
            }
            let mut sp = Spec::default();
            sp.shapes.insert("a#S".into(), Shape { traits: traits(&[("smithy.api#documentation", Some(v.clone()))]), body: Body::Structure(st(&[Mem { name: "m".into(), target: "a#S".into(), traits: traits(&[("smithy.api#documentation", Some(v.clone()))]) }])) });
            out.push((format!("documentation <- {n} {what}"), sp));
        }
        // long names
        let long = "n".repeat(n);
        let t = format!("a#T{long}");
        let sp = Spec::default().with(&format!("a#S{long}"), Body::Structure(st(&[mem(&long, &t), mem(&format!("{long}2"), "a#S")]))).with(&t, Body::Service(svc(&long)));
        out.push((format!("names of {n} characters"), sp));
    }
    // texts around the sizes of buffers
    for n in [1024usize, 4096, 8192, 65536] {
        for k in [n - 1, n, n + 1] {
            if !thorough && k != n && n != 8192 {
                continue;
            }
            let t: String = "0123456789abcde ".chars().cycle().take(k).collect();
            let u: String = "aé€😀".chars().cycle().take(k / 2).collect();
            for (what, v) in [("characters", s(&t)), ("wide characters", s(&u)), ("elements", V::Arr((0..k.min(9000)).map(|i| V::Int(i as i64)).collect())), ("keys", V::Obj((0..k.min(9000)).map(|i| (format!("k{i}"), V::Int(i as i64))).collect()))] {
                out.push((format!("shape <- {k} {what}"), at("shape", Some(v.clone()))));
                out.push((format!("metadata <- {k} {what}"), at("metadata", Some(v))));
            }
        }
    }
    for n in if thorough { vec![999usize, 1000, 1023, 1024, 1025, 4097] } else { vec![1025] } {
        let ms: Vec<Mem> = (0..n).map(|i| mem(&format!("m{i}"), &format!("a#T{}", i % 7))).collect();
        out.push((format!("{n} members"), one(Body::Structure(st(&ms)))));
        let mut sp = Spec::default();
        let bodies = plain_bodies();
        for i in 0..n {
            sp = sp.with(&format!("a#S{i}"), bodies[i % bodies.len()].clone());
        }
        out.push((format!("{n} shapes"), sp));
    }
    // the same thing several times
    let tw = |l: &[&str]| -> Vec<Vec<String>> { (0..l.len()).flat_map(|i| (0..l.len()).flat_map(move |j| (0..l.len()).map(move |k| vec![i, j, k]))).chain((0..l.len()).map(|i| vec![i, i])).map(|w| w.into_iter().map(|i| l[i].to_string()).collect()).collect() };
    for l in tw(&["a#Op", "a#Op2"]) {
        let bodies = [
            Body::Service(Svc { version: "1".into(), operations: l.clone(), ..Default::default() }),
            Body::Service(Svc { version: "1".into(), resources: l.clone(), operations: l.clone(), ..Default::default() }),
            Body::Operation(Op { errors: l.clone(), input: Some(l[0].clone()), output: Some(l[0].clone()) }),
            Body::Resource(Res { operations: l.clone(), ..Default::default() }),
            Body::Resource(Res { collection_operations: l.clone(), ..Default::default() }),
            Body::Resource(Res { resources: l.clone(), operations: l.clone(), collection_operations: l.clone(), ..Default::default() }),
        ];
        for b in bodies {
            let sp = one(b);
            out.push((format!("repeats {}", sp.show()), sp));
        }
    }
    for w in crate::kit::gen::sequences(3, 4).into_iter().filter(|w| w.len() > 2) {
        let atoms = [V::Int(1), s("1"), V::Arr(vec![V::Int(1)])];
        let v = V::Arr(w.iter().map(|i| atoms[*i].clone()).collect());
        for p in ["shape", "metadata"] {
            out.push((format!("{p} <- repeats {}", show_v(&v)), at(p, Some(v.clone()))));
        }
    }
    out
}

/// Models whose shapes are in several namespaces, and degenerate ones.
/// Shapes of every kind of namespace `n1`, and all they say refers to shapes of `n2` as well as `n1`.
fn referring(n1: &str, n2: &str, defined: bool) -> Spec {
    let (t, u, o, r) = (format!("{n2}#T"), format!("{n1}#U"), format!("{n2}#O"), format!("{n2}#R"));
    let id = |n: &str| format!("{n1}#{n}");
    let tr = traits(&[(&t, Some(V::Int(1))), (&u, None)]);
    let mem = |name: &str, x: &str| Mem { name: name.to_string(), target: x.to_string(), traits: tr.clone() };
    let mut sp = Spec::default();
    for (name, body) in [
        ("U", Body::Simple("string".into())),
        ("L", Body::List(mem("member", &t))),
        ("S", Body::Set(mem("member", &t))),
        ("M", Body::Map(mem("key", &t), mem("value", &t))),
        ("St", Body::Structure(st(&[mem("x", &t), mem("y", &u)]))),
        ("Un", Body::Union(st(&[mem("x", &t), mem("y", &u)]))),
        ("Op", op3(Some(&t), Some(&u), &[&t, &u])),
        (
            "Svc",
            Body::Service(Svc {
                version: "1".into(),
                operations: vec![o.clone(), id("Op")],
                resources: vec![r.clone(), id("Res")],
                renames: smap(&[(&t, "TT"), (&u, "UU")]),
            }),
        ),
        (
            "Res",
            Body::Resource(Res {
                identifiers: smap(&[("i", &t), ("j", &u)]),
                life: std::array::from_fn(|k| Some(if k % 2 == 0 { o.clone() } else { id("Op") })),
                operations: vec![o.clone(), id("Op")],
                collection_operations: vec![id("Op"), o.clone()],
                resources: vec![r.clone(), id("Res")],
            }),
        ),
    ] {
        sp.shapes.insert(id(name), Shape { traits: tr.clone(), body });
    }
    if defined {
        sp = sp.with(&t, Body::Simple("string".into())).with(&o, op3(None, None, &[])).with(&r, Body::Resource(Res::default()));
    }
    sp
}
pub fn multi() -> Vec<(String, Spec)> {
    let mut out = vec![("nothing".to_string(), Spec::default())];
    for (k, v) in [("a", V::Int(1)), ("", V::None), ("b", V::Arr(vec![]))] {
        out.push((format!("only metadata {k:?}"), Spec { metadata: BTreeMap::from([(k.to_string(), v)]), ..Default::default() }));
    }
    let ns = ["a", "b", "a.b", "ab", "smithy.api", "a.b.c_d.e9"];
    let bodies = plain_bodies();
    for n1 in ns {
        for n2 in ns {
            for (i, b) in bodies.iter().enumerate() {
                let x = &bodies[(i * 7 + 13) % bodies.len()];
                let mut sp = Spec::default().with(&format!("{n1}#S"), b.clone()).with(&format!("{n2}#Z"), x.clone());
                if n1 != n2 {
                    sp = sp.with(&format!("{n2}#S"), b.clone());
                }
                sp.shapes.values_mut().next().unwrap().traits = traits(&[(&format!("{n2}#S"), None), (&format!("{n1}#Z"), Some(V::Int(2)))]);
                out.push((format!("two {}", sp.show()), sp));
            }
        }
    }
    // everything that can refer, to shapes of every namespace whose name looks related
    let ns = ["a", "a.b", "a.b.c", "a.bb", "ab", "b", "b.a", "a.a", "b.a.b", "smithy", "smithy.api", "smithy.api.x", "smithy.apis", "x.smithy.api"];
    for n1 in ns {
        for n2 in ns {
            for defined in [true, false] {
                out.push((format!("{n1} refers to {n2}, defined: {defined}"), referring(n1, n2, defined)));
            }
        }
    }
    // many namespaces, of many segments
    for n in [3usize, 9, 10, 11, 12, 33, 100] {
        let mut sp = Spec::default();
        let mut long = Spec::default();
        let segs: Vec<String> = (0..n).map(|i| format!("s{i}")).collect();
        for i in 0..n {
            let b = &bodies[(i * 3 + 13) % bodies.len()];
            sp = sp.with(&format!("n{i}#S"), b.clone());
            long = long.with(&format!("{}#S{i}", segs[..=i].join(".")), b.clone());
        }
        out.push((format!("{n} namespaces"), sp));
        out.push((format!("{n} segments"), long));
    }
    out
}

pub fn models(thorough: bool) -> Vec<(String, Spec)> {
    let mut v = single(thorough);
    v.extend(multi());
    let mut seen = std::collections::HashSet::new();
    v.retain(|(n, _)| seen.insert(n.clone()));
    v
}

/// Rich models that `neighbours` are taken of.
pub fn rich() -> Vec<Spec> {
    let deep = obj(&[("a", V::Arr(vec![V::Int(1), V::None, obj(&[("b", s("x"))])])), ("c", V::Float(F(1.5))), ("d", V::Bool(true))]);
    let mut out = vec![kitchen()];
    for b in body_variants().iter().rev().step_by(5).take(4).chain(plain_bodies().iter().skip(13)) {
        let mut sp = Spec::default();
        sp.metadata.insert("m".into(), deep.clone());
        sp.shapes.insert("a#S".into(), decorate(b, "a#tr", Some(deep.clone())));
        sp.shapes.get_mut("a#S").unwrap().traits.insert("b#tr2".into(), None);
        sp.shapes.insert("b.c#Other".into(), Shape { traits: traits(&[("a#tr", Some(s("v")))]), body: Body::Simple("string".into()) });
        out.push(sp);
    }
    // rich bodies, whatever the variants above are
    let m = |n: &str, t: &str| Mem { name: n.into(), target: t.into(), traits: traits(&[("a#tr", Some(deep.clone())), ("b#t", None)]) };
    let x = |n: &str| format!("b.c#{n}");
    let bodies = [
        Body::List(m("member", "a#T")),
        Body::Map(m("key", "a#T"), m("value", "b.c#T")),
        Body::Structure(st(&[m("p", "a#T"), m("q", "b.c#T"), mem("trait", "a#T")])),
        Body::Union(st(&[m("p", "a#T"), mem("q", "b.c#T")])),
        Body::Service(Svc { version: "v1".into(), operations: vec![x("O1"), x("O2")], resources: vec![x("R1"), x("R2")], renames: smap(&[("b.c#A", "A1"), ("b.c#B", "B1")]) }),
        op3(Some("a#I"), Some("a#O"), &["a#E1", "b.c#E2"]),
        Body::Resource(Res { identifiers: smap(&[("i", "a#T"), ("j", "b.c#T")]), life: std::array::from_fn(|i| Some(format!("a#L{i}"))), operations: vec![x("O1"), x("O2")], collection_operations: vec![x("C1"), x("C2")], resources: vec![x("R1"), x("R2")] }),
    ];
    for b in bodies {
        let mut sp = Spec::default();
        sp.metadata.insert("m".into(), deep.clone());
        sp.metadata.insert("n".into(), V::Int(2));
        sp.shapes.insert("a#S".into(), Shape { traits: traits(&[("a#tr", Some(deep.clone())), ("b#t", None)]), body: b });
        sp.shapes.insert("b.c#Other".into(), Shape { traits: traits(&[("a#tr", Some(s("v")))]), body: Body::Simple("string".into()) });
        out.push(sp);
    }
    out
}

/// Every value that differs from `v` in one detail.
pub fn v_changes(v: &V) -> Vec<V> {
    let pool = [V::None, V::Bool(true), V::Bool(false), V::Int(0), V::Int(1), V::Int(-1), V::Float(F(0.0)), V::Float(F(1.0)), V::Float(F(2.5)), s(""), s("1"), s("true"), s("()"), s("x"), V::Arr(vec![]), V::Obj(BTreeMap::new()), V::Arr(vec![V::Int(1)]), obj(&[("a", V::Int(1))]), obj(&[("0", V::Int(1))])];
    let mut out: Vec<V> = pool.into_iter().filter(|x| x != v).collect();
    match v {
        V::Arr(a) => {
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push(V::Arr(b));
                for j in i + 1..a.len() {
                    let mut b = a.clone();
                    b.swap(i, j);
                    out.push(V::Arr(b));
                }
                for x in v_changes(&a[i]) {
                    let mut b = a.clone();
                    b[i] = x;
                    out.push(V::Arr(b));
                }
            }
            let mut b = a.clone();
            b.push(V::None);
            out.push(V::Arr(b));
        }
        V::Str(x) => {
            let mut near = vec![format!("{x} "), format!(" {x}"), format!("{x}\n"), format!("{x}.0"), x.to_uppercase(), x.to_lowercase(), format!("{x}{x}"), x.chars().skip(1).collect(), x.chars().rev().collect(), x.replace('a', "\u{e1}")];
            near.retain(|y| y != x);
            out.extend(near.into_iter().map(V::Str));
        }
        V::Int(i) => out.extend([V::Int(i.wrapping_add(1)), V::Int(i.wrapping_sub(1)), V::Int(i.wrapping_neg()), V::Int(i.wrapping_add(256)), V::Int(i.wrapping_add(1 << 32)), V::Float(F(*i as f64)), V::Str(i.to_string())].into_iter().filter(|y| y != v)),
        V::Float(F(f)) => out.extend([V::Float(F(-f)), V::Float(F(f * (1.0 + f64::EPSILON))), V::Float(F(*f as f32 as f64)), V::Float(F(f.round())), V::Int(*f as i64), V::Str(f.to_string())].into_iter().filter(|y| y != v && !matches!(y, V::Float(F(g)) if g == f))),
        V::Obj(o) => {
            for (k, x) in o {
                let mut b = o.clone();
                b.remove(k);
                out.push(V::Obj(b.clone()));
                b.insert(format!("{k}x"), x.clone());
                out.push(V::Obj(b));
                for y in v_changes(x) {
                    let mut b = o.clone();
                    b.insert(k.clone(), y);
                    out.push(V::Obj(b));
                }
            }
        }
        _ => {}
    }
    out
}
fn traits_changes(t: &Traits) -> Vec<Traits> {
    let mut out = vec![];
    let mut more = t.clone();
    more.insert("z#more".into(), None);
    out.push(more);
    for (k, v) in t {
        let mut b = t.clone();
        b.remove(k);
        out.push(b.clone());
        b.insert(format!("{k}x"), v.clone());
        out.push(b);
        let vs: Vec<Option<V>> = match v {
            None => v_changes(&V::Int(7)).into_iter().map(Some).collect(),
            Some(v) => v_changes(v).into_iter().map(Some).chain([None]).collect(),
        };
        for x in vs {
            let mut b = t.clone();
            b.insert(k.clone(), x);
            out.push(b);
        }
    }
    out
}
fn list_changes(l: &[String]) -> Vec<Vec<String>> {
    let mut out = vec![];
    for i in 0..l.len() {
        let mut b = l.to_vec();
        b.remove(i);
        out.push(b);
        let mut b = l.to_vec();
        b[i] = format!("{}x", b[i]);
        out.push(b);
    }
    let mut b = l.to_vec();
    b.push("z#More".into());
    out.push(b);
    out
}
fn opt_changes(o: &Option<String>) -> Vec<Option<String>> {
    match o {
        None => vec![Some("z#More".into())],
        Some(x) => vec![None, Some(format!("{x}x"))],
    }
}
fn map_changes(m: &BTreeMap<String, String>) -> Vec<BTreeMap<String, String>> {
    let mut out = vec![];
    for (k, v) in m {
        let mut b = m.clone();
        b.remove(k);
        out.push(b.clone());
        b.insert(format!("{k}x"), v.clone());
        out.push(b);
        let mut b = m.clone();
        b.insert(k.clone(), format!("{v}x"));
        out.push(b);
    }
    out
}
fn body_changes(b: &Body) -> Vec<Body> {
    let mut out: Vec<Body> = plain_bodies().into_iter().filter(|x| x != b).collect();
    let mems = |out: &mut Vec<Body>| {
        let n = b.members().len();
        for i in 0..n {
            let mut x = b.clone();
            x.members_mut()[i].target.push('x');
            out.push(x);
            for t in traits_changes(&b.members()[i].traits) {
                let mut x = b.clone();
                x.members_mut()[i].traits = t;
                out.push(x);
            }
        }
    };
    mems(&mut out);
    match b {
        Body::List(m) => out.push(Body::Set(m.clone())),
        Body::Set(m) => out.push(Body::List(m.clone())),
        Body::Map(k, v) => {
            let (mut k2, mut v2) = (v.clone(), k.clone());
            k2.name = "key".into();
            v2.name = "value".into();
            out.push(Body::Map(k2, v2));
        }
        Body::Structure(ms) | Body::Union(ms) => {
            let is = matches!(b, Body::Structure(_));
            let mk = |x: BTreeMap<String, Mem>| if is { Body::Structure(x) } else { Body::Union(x) };
            out.push(if is { Body::Union(ms.clone()) } else { Body::Structure(ms.clone()) });
            for (k, m) in ms {
                let mut x = ms.clone();
                x.remove(k);
                out.push(mk(x.clone()));
                let mut m = m.clone();
                m.name.push('x');
                x.insert(m.name.clone(), m);
                out.push(mk(x));
            }
            let mut x = ms.clone();
            x.insert("more".into(), mem("more", "a#T"));
            out.push(mk(x));
        }
        Body::Service(s) => {
            for v in ["v", "v1 ", "V1"] {
                out.push(Body::Service(Svc { version: v.into(), ..s.clone() }));
            }
            out.extend(list_changes(&s.operations).into_iter().map(|x| Body::Service(Svc { operations: x, ..s.clone() })));
            out.extend(list_changes(&s.resources).into_iter().map(|x| Body::Service(Svc { resources: x, ..s.clone() })));
            out.push(Body::Service(Svc { resources: s.operations.clone(), operations: s.resources.clone(), ..s.clone() }));
            out.extend(map_changes(&s.renames).into_iter().map(|x| Body::Service(Svc { renames: x, ..s.clone() })));
        }
        Body::Operation(o) => {
            out.extend(opt_changes(&o.input).into_iter().map(|x| Body::Operation(Op { input: x, ..o.clone() })));
            out.extend(opt_changes(&o.output).into_iter().map(|x| Body::Operation(Op { output: x, ..o.clone() })));
            out.push(Body::Operation(Op { output: o.input.clone(), input: o.output.clone(), ..o.clone() }));
            out.extend(list_changes(&o.errors).into_iter().map(|x| Body::Operation(Op { errors: x, ..o.clone() })));
        }
        Body::Resource(r) => {
            out.extend(map_changes(&r.identifiers).into_iter().map(|x| Body::Resource(Res { identifiers: x, ..r.clone() })));
            for i in 0..6 {
                for x in opt_changes(&r.life[i]) {
                    let mut r = r.clone();
                    r.life[i] = x;
                    out.push(Body::Resource(r));
                }
                for j in i + 1..6 {
                    let mut r = r.clone();
                    r.life.swap(i, j);
                    out.push(Body::Resource(r));
                }
            }
            out.extend(list_changes(&r.operations).into_iter().map(|x| Body::Resource(Res { operations: x, ..r.clone() })));
            out.extend(list_changes(&r.collection_operations).into_iter().map(|x| Body::Resource(Res { collection_operations: x, ..r.clone() })));
            out.extend(list_changes(&r.resources).into_iter().map(|x| Body::Resource(Res { resources: x, ..r.clone() })));
            out.push(Body::Resource(Res { operations: r.collection_operations.clone(), collection_operations: r.operations.clone(), ..r.clone() }));
            out.push(Body::Resource(Res { operations: r.resources.clone(), resources: r.operations.clone(), ..r.clone() }));
        }
        _ => {}
    }
    out
}

/// Every model that differs from `sp` in one detail, and `sp` itself.
pub fn neighbours(sp: &Spec) -> Vec<(String, Spec)> {
    let mut out = vec![("unchanged".to_string(), sp.clone())];
    let add = |what: String, x: Spec, out: &mut Vec<(String, Spec)>| {
        let w = format!("{what} -> {:016x}", crate::kit::run::h64(&x.show()));
        out.push((w, x));
    };
    for (k, v) in &sp.metadata {
        let mut x = sp.clone();
        x.metadata.remove(k);
        add(format!("metadata {k} removed"), x.clone(), &mut out);
        x.metadata.insert(format!("{k}x"), v.clone());
        add(format!("metadata {k} renamed"), x, &mut out);
        for (i, y) in v_changes(v).into_iter().enumerate() {
            let mut x = sp.clone();
            x.metadata.insert(k.clone(), y);
            add(format!("metadata {k} changed {i}"), x, &mut out);
        }
    }
    for (id, sh) in &sp.shapes {
        let mut x = sp.clone();
        x.shapes.remove(id);
        add(format!("{id} removed"), x.clone(), &mut out);
        x.shapes.insert(format!("{id}x"), sh.clone());
        add(format!("{id} renamed"), x.clone(), &mut out);
        x.shapes.remove(&format!("{id}x"));
        x.shapes.insert(format!("z.{id}"), sh.clone());
        add(format!("{id} moved"), x, &mut out);
        for (i, t) in traits_changes(&sh.traits).into_iter().enumerate() {
            let mut x = sp.clone();
            x.shapes.get_mut(id).unwrap().traits = t;
            add(format!("{id} traits {i}"), x, &mut out);
        }
        for (i, b) in body_changes(&sh.body).into_iter().enumerate() {
            let mut x = sp.clone();
            x.shapes.get_mut(id).unwrap().body = b;
            add(format!("{id} body {i}"), x, &mut out);
        }
    }
    out
}
