//! Families of shapes, values and models shared by the properties.
use crate::kit::gen::*;
use crate::kit::spec::*;
use std::collections::BTreeMap;

pub fn svc(version: &str) -> Svc {
    Svc { version: version.into(), ..Default::default() }
}

/// One body of every kind.
pub fn plain_bodies() -> Vec<Body> {
    let mut v: Vec<Body> = SIMPLE.iter().map(|s| Body::Simple(s.to_string())).collect();
    v.push(Body::List(mem("member", "smithy.api#String")));
    v.push(Body::Set(mem("member", "smithy.api#Integer")));
    v.push(Body::Map(mem("key", "smithy.api#String"), mem("value", "smithy.api#Long")));
    v.push(Body::Structure(st(&[mem("m", "smithy.api#String"), mem("member", "smithy.api#Blob")])));
    v.push(Body::Union(st(&[mem("key", "smithy.api#String"), mem("n", "smithy.api#Blob")])));
    v.push(Body::Service(Svc { version: "1".into(), operations: vec!["a#Op".into()], ..Default::default() }));
    v.push(Body::Operation(Op { input: Some("a#In".into()), ..Default::default() }));
    v.push(Body::Resource(Res { identifiers: BTreeMap::from([("id".to_string(), "a#Id".to_string())]), ..Default::default() }));
    v.push(Body::Unresolved);
    v
}

pub fn op3(input: Option<&str>, output: Option<&str>, errors: &[&str]) -> Body {
    Body::Operation(Op {
        input: input.map(String::from),
        output: output.map(String::from),
        errors: errors.iter().map(|s| s.to_string()).collect(),
    })
}
pub fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}
pub fn smap(x: &[(&str, &str)]) -> BTreeMap<String, String> {
    x.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

/// Bodies in which every kind has variants that differ in exactly one detail. Targets are in
/// namespaces `a` (T, U, Op, Op2, Res, Res2, Id), `b` and the prelude.
pub fn body_variants() -> Vec<Body> {
    let mut v: Vec<Body> = SIMPLE.iter().map(|s| Body::Simple(s.to_string())).collect();
    let targets = ["smithy.api#String", "a#T", "a#U", "b#T"];
    for t in targets {
        v.push(Body::List(mem("member", t)));
        v.push(Body::Set(mem("member", t)));
        for u in ["smithy.api#String", "a#T", "b#T"] {
            v.push(Body::Map(mem("key", t), mem("value", u)));
        }
    }
    let mut ms: Vec<BTreeMap<String, Mem>> = vec![st(&[])];
    for n in ["m", "n"] {
        for t in ["a#T", "a#U", "b#T"] {
            ms.push(st(&[mem(n, t)]));
        }
    }
    ms.push(st(&[mem("m", "a#T"), mem("n", "a#T")]));
    ms.push(st(&[mem("m", "a#T"), mem("n", "a#U")]));
    ms.push(st(&[mem("m", "a#U"), mem("n", "a#T")]));
    ms.push(st(&[mem("m", "a#T"), mem("o", "a#T")]));
    ms.push(st(&[mem("m", "a#T"), mem("n", "a#T"), mem("o", "a#T")]));
    ms.push(st(&[mem("m", "a#T"), mem("n", "a#T"), mem("o", "a#U")]));
    ms.push(st(&[mem("m", "a#T"), mem("n", "a#T"), mem("p", "a#T")]));
    ms.push(st(&[mem("member", "a#T"), mem("key", "a#T"), mem("value", "a#T"), mem("list", "a#T"), mem("true", "a#T")]));
    for m in &ms {
        v.push(Body::Structure(m.clone()));
        v.push(Body::Union(m.clone()));
    }
    // service
    for ver in ["1", "2"] {
        v.push(Body::Service(svc(ver)));
    }
    for (o, r) in [(&["a#Op"][..], &[][..]), (&["a#Op2"], &[]), (&["a#Op", "a#Op2"], &[]), (&["b#Op"], &[]), (&[], &["a#Res"]), (&[], &["a#Res2"]), (&[], &["a#Res", "a#Res2"]), (&["a#Op"], &["a#Res"]), (&["a#Op", "a#Op2"], &["a#Res", "a#Res2"])] {
        v.push(Body::Service(Svc { version: "1".into(), operations: strs(o), resources: strs(r), renames: BTreeMap::new() }));
    }
    for r in [&[("a#T", "X")][..], &[("a#T", "Y")], &[("b#T", "X")], &[("a#T", "X"), ("b#T", "Y")], &[("a#T", "Y"), ("b#T", "X")]] {
        v.push(Body::Service(Svc { version: "1".into(), renames: smap(r), ..Default::default() }));
    }
    // operation
    for i in [None, Some("a#T"), Some("a#U"), Some("b#T")] {
        for o in [None, Some("a#T"), Some("a#U")] {
            for e in [&[][..], &["a#T"], &["a#U"], &["a#T", "a#U"]] {
                v.push(op3(i, o, e));
            }
        }
    }
    v.extend(resource_variants());
    v.push(Body::Unresolved);
    // shapes that refer to themselves (the families mostly call the shape a#S or a#Owner)
    for me in ["a#S", "a#Owner"] {
        v.push(Body::List(mem("member", me)));
        v.push(Body::Set(mem("member", me)));
        v.push(Body::Map(mem("key", me), mem("value", me)));
        v.push(Body::Map(mem("key", "a#T"), mem("value", me)));
        v.push(Body::Map(mem("key", me), mem("value", "a#T")));
        for ms in [st(&[mem("m", me)]), st(&[mem("m", me), mem("n", me)]), st(&[mem("m", "a#T"), mem("n", me), mem("o", "a#T")])] {
            v.push(Body::Structure(ms.clone()));
            v.push(Body::Union(ms));
        }
        v.push(op3(Some(me), Some(me), &[me]));
        v.push(Body::Service(Svc { version: "1".into(), operations: strs(&[me]), resources: strs(&[me]), renames: smap(&[(me, "Me")]) }));
        v.push(Body::Resource(Res {
            identifiers: smap(&[("id", me)]),
            life: std::array::from_fn(|_| Some(me.to_string())),
            operations: strs(&[me]),
            collection_operations: strs(&[me]),
            resources: strs(&[me]),
        }));
    }
    // the same target in several places
    v.push(op3(Some("a#T"), Some("a#T"), &["a#T", "a#T"]));
    v.push(op3(None, None, &["a#T", "a#U", "a#T"]));
    v.push(Body::Service(Svc { version: "1".into(), operations: strs(&["a#Op", "a#Op"]), resources: strs(&["a#Res", "a#Res"]), ..Default::default() }));
    v.push(Body::Service(Svc { version: "1".into(), operations: strs(&["a#Op", "a#Op2", "a#Op"]), ..Default::default() }));
    v.push(Body::Service(Svc { version: "2020-01-01 \"x\"".into(), ..Default::default() }));
    v.push(Body::Resource(Res { operations: strs(&["a#Op", "a#Op"]), collection_operations: strs(&["a#Op", "a#Op"]), resources: strs(&["a#Res", "a#Res"]), ..Default::default() }));
    v.push(Body::Resource(Res { identifiers: smap(&[("id", "a#Id"), ("key", "a#Id"), ("list", "a#Id"), ("read", "a#Id")]), ..Default::default() }));
    v
}

/// Every place of every kind of shape that can hold a reference: a body with all places of the kind
/// filled, and how to put something else into each.
pub fn places() -> Vec<(&'static str, Body, Vec<(&'static str, fn(&mut Body, &str))>)> {
    fn r(b: &mut Body) -> &mut Res {
        match b {
            Body::Resource(r) => r,
            _ => unreachable!(),
        }
    }
    fn y(b: &mut Body) -> &mut Svc {
        match b {
            Body::Service(r) => r,
            _ => unreachable!(),
        }
    }
    fn o(b: &mut Body) -> &mut Op {
        match b {
            Body::Operation(r) => r,
            _ => unreachable!(),
        }
    }
    fn m(b: &mut Body, k: usize, t: &str) {
        b.members_mut().into_iter().nth(k).unwrap().target = t.to_string();
    }
    let d = "smithy.api#String";
    vec![
        ("map", Body::Map(mem("key", d), mem("value", d)), vec![("key", |b, t| m(b, 0, t)), ("value", |b, t| m(b, 1, t))]),
        ("structure", Body::Structure(st(&[mem("m", d), mem("n", d), mem("o", d)])), vec![("m", |b, t| m(b, 0, t)), ("n", |b, t| m(b, 1, t)), ("o", |b, t| m(b, 2, t))]),
        ("union", Body::Union(st(&[mem("m", d), mem("n", d), mem("o", d)])), vec![("m", |b, t| m(b, 0, t)), ("n", |b, t| m(b, 1, t)), ("o", |b, t| m(b, 2, t))]),
        (
            "service",
            Body::Service(Svc { version: "1".into(), operations: strs(&["a#FOp", "a#FOp"]), resources: strs(&["a#FRes", "a#FRes"]), ..Default::default() }),
            vec![
                ("operation 1", |b, t| y(b).operations[0] = t.into()),
                ("operation 2", |b, t| y(b).operations[1] = t.into()),
                ("resource 1", |b, t| y(b).resources[0] = t.into()),
                ("resource 2", |b, t| y(b).resources[1] = t.into()),
            ],
        ),
        (
            "operation",
            op3(Some("a#FStruct"), Some("a#FStruct"), &["a#FStruct", "a#FStruct"]),
            vec![
                ("input", |b, t| o(b).input = Some(t.into())),
                ("output", |b, t| o(b).output = Some(t.into())),
                ("error 1", |b, t| o(b).errors[0] = t.into()),
                ("error 2", |b, t| o(b).errors[1] = t.into()),
            ],
        ),
        (
            "resource",
            Body::Resource(Res {
                identifiers: smap(&[("id", d), ("key", d)]),
                life: std::array::from_fn(|_| Some("a#FOp".to_string())),
                operations: strs(&["a#FOp", "a#FOp"]),
                collection_operations: strs(&["a#FOp", "a#FOp"]),
                resources: strs(&["a#FRes", "a#FRes"]),
            }),
            vec![
                ("identifier 1", |b, t| drop(r(b).identifiers.insert("id".into(), t.into()))),
                ("identifier 2", |b, t| drop(r(b).identifiers.insert("key".into(), t.into()))),
                ("create", |b, t| r(b).life[0] = Some(t.into())),
                ("put", |b, t| r(b).life[1] = Some(t.into())),
                ("read", |b, t| r(b).life[2] = Some(t.into())),
                ("update", |b, t| r(b).life[3] = Some(t.into())),
                ("delete", |b, t| r(b).life[4] = Some(t.into())),
                ("list", |b, t| r(b).life[5] = Some(t.into())),
                ("operation 1", |b, t| r(b).operations[0] = t.into()),
                ("operation 2", |b, t| r(b).operations[1] = t.into()),
                ("collection operation 1", |b, t| r(b).collection_operations[0] = t.into()),
                ("collection operation 2", |b, t| r(b).collection_operations[1] = t.into()),
                ("resource 1", |b, t| r(b).resources[0] = t.into()),
                ("resource 2", |b, t| r(b).resources[1] = t.into()),
            ],
        ),
    ]
}

pub fn resource_variants() -> Vec<Body> {
    let mut v = vec![];
    // every subset of the lifecycle operations
    for bits in 0..64u32 {
        let mut r = Res::default();
        for k in 0..6 {
            if bits & (1 << k) != 0 {
                r.life[k] = Some("a#Op".into());
            }
        }
        v.push(Body::Resource(r));
    }
    let all: [Option<String>; 6] = std::array::from_fn(|k| Some(format!("a#Op{}", if k == 0 { String::new() } else { (k + 1).to_string() })));
    for k in 0..6 {
        // a different operation in one slot, and all slots filled with different ones bar a swap
        let mut r = Res::default();
        r.life[k] = Some("a#Op2".into());
        v.push(Body::Resource(r));
        let mut r = Res { life: all.clone(), ..Default::default() };
        r.life.swap(k, (k + 1) % 6);
        v.push(Body::Resource(r));
    }
    v.push(Body::Resource(Res { life: all.clone(), ..Default::default() }));
    for i in [&[("id", "a#Id")][..], &[("id", "a#T")], &[("key", "a#Id")], &[("id", "a#Id"), ("key", "a#Id")], &[("id", "a#Id"), ("key", "a#T"), ("z", "b#T")]] {
        v.push(Body::Resource(Res { identifiers: smap(i), ..Default::default() }));
    }
    for (o, c, r) in [
        (&["a#Op"][..], &[][..], &[][..]),
        (&["a#Op2"], &[], &[]),
        (&["a#Op", "a#Op2"], &[], &[]),
        (&[], &["a#Op"], &[]),
        (&[], &["a#Op2"], &[]),
        (&[], &["a#Op", "a#Op2"], &[]),
        (&[], &[], &["a#Res"]),
        (&[], &[], &["a#Res2"]),
        (&[], &[], &["a#Res", "a#Res2"]),
        (&["a#Op"], &["a#Op2"], &["a#Res"]),
    ] {
        v.push(Body::Resource(Res { operations: strs(o), collection_operations: strs(c), resources: strs(r), ..Default::default() }));
    }
    v.push(Body::Resource(Res {
        identifiers: smap(&[("id", "a#Id"), ("key", "a#T")]),
        life: all,
        operations: strs(&["a#Op", "a#Op2"]),
        collection_operations: strs(&["a#Op2", "a#Op"]),
        resources: strs(&["a#Res", "a#Res2"]),
    }));
    v
}

/// Values of every kind, with the empty, nested and almost equal cases.
pub fn value_pool() -> Vec<V> {
    vec![
        V::Arr(vec![V::Int(1)]),
        V::Arr(vec![]),
        V::Arr(vec![V::Int(1), s("x")]),
        V::Arr(vec![V::Arr(vec![V::Int(1)]), V::None]),
        V::Obj(BTreeMap::new()),
        obj(&[("a", V::Int(1))]),
        obj(&[("a", V::Arr(vec![V::Int(1)]))]),
        obj(&[("a", V::Int(1)), ("b", s(""))]),
        V::None,
        V::Bool(true),
        V::Bool(false),
        V::Int(1),
        V::Int(0),
        V::Float(F(1.0)),
        s("1"),
        s(""),
    ]
}
