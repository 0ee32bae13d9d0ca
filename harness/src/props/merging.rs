//! C04-C08: merging of metadata, shapes, traits and models; completeness.
use super::fam::*;
use super::iofam::{models, neighbours, rich, sizes};
use super::reuse::{lower, map_ids};
use crate::kit::bfs::same;
use crate::kit::gen::*;
use crate::kit::order::with_seed;
use crate::kit::run::Ctx;
use crate::kit::spec::*;
use atelier_core::action::validate::{run_validation_actions, NoUnresolvedReferences};
use atelier_core::action::Validator;
use atelier_core::model::shapes::*;
use atelier_core::model::Model;
use atelier_core::Version;
use std::collections::{BTreeMap, BTreeSet};

/// The shared rule for metadata and trait values: Ok(result) or refusal.
pub fn combine(old: &Option<V>, new: &Option<V>) -> Result<Option<V>, ()> {
    match (old, new) {
        (Some(V::Arr(a)), Some(V::Arr(b))) => Ok(Some(V::Arr(a.iter().chain(b).cloned().collect()))),
        (a, b) if a == b => Ok(a.clone()),
        _ => Err(()),
    }
}

pub fn metadata(c: &mut Ctx) {
    c.level = "model_checking";
    c.rule = "every sequence of up to three values (four thorough) from a 16-value pool added under one key, by single additions and by merging models with one, two or three further keys; up to 257 (1000 thorough) arrays in a row; the tables of rich and large models with one detail changed merged with the original both ways; state = metadata of the reference map, transition = one addition or merge; every sequence is non-trivial (it meets the first value)".into();
    let pool = value_pool();
    let n = if c.thorough { 4 } else { 3 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..n {
        seqs = seqs.iter().flat_map(|q| (0..pool.len()).map(move |i| [q.clone(), vec![i]].concat())).collect();
        all.extend(seqs.iter().cloned());
    }
    let mut states: BTreeSet<u64> = BTreeSet::new();
    for q in &all {
        let names: Vec<String> = q.iter().map(|i| show_v(&pool[*i])).collect();
        for route in ["add", "merge", "merge3"] {
            let name = format!("{route} {}", names.join(" then "));
            let mine = c.mine(&name);
            if mine {
                c.transitions += q.len() as u64;
                c.traces += 1;
            }
            let st = &mut states;
            c.case_o(&name, true, || {
                let mut m = Model::new(Version::V10);
                let mut want: BTreeMap<String, V> = BTreeMap::new();
                if route != "merge3" {
                    m.add_metadata("other".into(), v_to(&s("kept"))).map_err(|e| e.to_string())?;
                    want.insert("other".into(), s("kept"));
                }
                let mut label = "stored";
                for (i, ix) in q.iter().enumerate() {
                    let v = &pool[*ix];
                    let expect = match want.get("k") {
                        None => Ok(Some(v.clone())),
                        Some(o) => combine(&Some(o.clone()), &Some(v.clone())),
                    };
                    let got = match route {
                        "add" => m.add_metadata("k".into(), v_to(v)).map(|_| ()),
                        _ => {
                            let mut o = Model::new(Version::V10);
                            o.add_metadata("k".into(), v_to(v)).map_err(|e| e.to_string())?;
                            if route == "merge3" && expect.is_ok() {
                                // keys around the one in question, with the same and other values
                                o.add_metadata(format!("own{i}"), v_to(v)).map_err(|e| e.to_string())?;
                                o.add_metadata("same".into(), v_to(&V::Bool(false))).map_err(|e| e.to_string())?;
                                want.insert(format!("own{i}"), v.clone());
                                want.insert("same".into(), V::Bool(false));
                            }
                            m.merge(o)
                        }
                    };
                    same(&format!("step {i} accepted"), got.is_ok(), expect.is_ok())?;
                    match expect {
                        Ok(v) => {
                            if i > 0 {
                                label = if matches!(v, Some(V::Arr(_))) { "appended" } else { "unchanged" }
                            }
                            want.insert("k".into(), v.unwrap());
                        }
                        Err(()) => label = "refused",
                    }
                    let got = Spec::observe(&m);
                    st.insert(crate::kit::run::h64(&got.show()));
                    diff(&Spec { metadata: want.clone(), ..Default::default() }, &got)?;
                }
                Ok(label)
            });
        }
    }
    c.states = states.len() as u64;
    // values that are almost the same
    for (a, b) in near_values() {
        for route in ["add", "merge"] {
            c.case_o(&format!("{route} near {} then {}", show_v(&a), show_v(&b)), true, || {
                let one = |v: &V| Spec { metadata: BTreeMap::from([("k".to_string(), v.clone())]), ..Default::default() };
                let mut m = one(&a).build();
                let ok = match route {
                    "add" => m.add_metadata("k".into(), v_to(&b)).is_ok(),
                    _ => m.merge(one(&b).build()).is_ok(),
                };
                let want = combine(&Some(a.clone()), &Some(b.clone()));
                same("accepted", ok, want.is_ok())?;
                diff(&one(&want.clone().ok().flatten().unwrap_or(a.clone())), &Spec::observe(&m))?;
                Ok(if want.is_ok() { "kept" } else { "refused" })
            });
        }
    }
    // long histories of one key
    let many: &[usize] = if c.thorough { &[5, 8, 9, 16, 17, 33, 64, 65, 100, 257, 1000] } else { &[5, 9, 17, 33, 65, 100, 257] };
    for &n in many {
        for step in [1usize, 2, 3, 40] {
            for route in ["add", "merge"] {
                for end in [None, Some(s("x")), Some(V::None)] {
                    let name = format!("{n} arrays of {step} by {route}, then {}", end.as_ref().map(show_v).unwrap_or_default());
                    c.case_o(&name, true, || {
                        let mut m = Model::new(Version::V10);
                        let mut want: Vec<V> = vec![];
                        let mut give = |v: &V| -> bool {
                            match route {
                                "add" => m.add_metadata("k".into(), v_to(v)).is_ok(),
                                _ => m.merge(Spec { metadata: BTreeMap::from([("k".to_string(), v.clone()), ("j".to_string(), s("same"))]), ..Default::default() }.build()).is_ok(),
                            }
                        };
                        for i in 0..n {
                            let v: Vec<V> = (0..step).map(|j| if j == 1 { s(&format!("{i}")) } else { V::Int((i / 2 + j) as i64) }).collect();
                            if !give(&V::Arr(v.clone())) {
                                return Err(format!("refused array {i}"));
                            }
                            want.extend(v);
                        }
                        if let Some(e) = &end {
                            if give(e) {
                                return Err("an array was replaced".into());
                            }
                        }
                        let mut sp = Spec::default();
                        sp.metadata.insert("k".into(), V::Arr(want));
                        if route == "merge" {
                            sp.metadata.insert("j".into(), s("same"));
                        }
                        let mut got = Spec::observe(&m);
                        if end.is_some() {
                            got.metadata.entry("j".into()).and_modify(|v| *v = s("same"));
                        }
                        diff(&sp, &got).map(|_| if end.is_some() { "refused" } else { "appended" })
                    });
                }
            }
        }
    }
    // whole tables, of models alike but for one detail
    for (name, a, b) in near_pairs(c) {
        if a.metadata == b.metadata && !name.contains("unchanged") {
            continue;
        }
        let only = |s: &Spec| Spec { metadata: s.metadata.clone(), ..Default::default() };
        c.case_o(&format!("tables {name}"), true, || check_merge(&only(&a), &only(&b)));
    }
}

/// Every pair of a value and what differs from it in one detail, or not at all, both ways round.
fn near_values() -> Vec<(V, V)> {
    let wide = V::Obj((0..12).map(|i| (format!("k{i}"), V::Int(i))).collect());
    let long: String = (0..100).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
    let bases = vec![
        s("Some text"),
        s("1"),
        V::Str(long),
        V::Int(7),
        V::Int(i64::MAX),
        V::Int(1 << 53),
        V::Float(F(0.1)),
        V::Float(F(1e22)),
        V::Float(F(0.0)),
        V::Bool(true),
        V::None,
        wide.clone(),
        obj(&[("a", V::Arr(vec![V::Int(1), V::Int(2), s("x")])), ("b", obj(&[("c", s("Text")), ("d", V::None)])), ("e", V::Float(F(2.5)))]),
        obj(&[("a", wide.clone()), ("b", V::Arr(vec![wide.clone(), V::Arr(vec![])]))]),
        V::Arr(vec![wide, s("x")]),
        V::Arr((0..20).map(V::Int).collect()),
    ];
    let mut out = vec![];
    for b in bases {
        for n in super::iofam::v_changes(&b) {
            out.push((b.clone(), n.clone()));
            out.push((n, b.clone()));
        }
        out.push((b.clone(), b));
    }
    let mut seen = BTreeSet::new();
    out.retain(|(a, b)| seen.insert(format!("{}/{}", show_v(a), show_v(b))));
    out
}

/// Reference merge of two models, letter case of ids aside.
pub fn ref_merge_models(a: &Spec, b: &Spec) -> Result<Spec, ()> {
    let mut out = lower(a);
    let b = lower(b);
    for (k, v) in b.metadata {
        let n = match out.metadata.remove(&k) {
            None => v,
            Some(o) => combine(&Some(o), &Some(v))?.unwrap(),
        };
        out.metadata.insert(k, n);
    }
    for (k, v) in b.shapes {
        let n = match out.shapes.get(&k) {
            None => v,
            Some(o) => ref_merge(o, &v)?,
        };
        out.shapes.insert(k, n);
    }
    Ok(out)
}
fn check_merge(a: &Spec, b: &Spec) -> Result<&'static str, String> {
    let mut label = "";
    for (x, y) in [(a, b), (b, a)] {
        let mut m = x.build();
        let got = m.merge(y.build());
        match (ref_merge_models(x, y), got) {
            (Err(()), Err(_)) => label = "refused",
            (Ok(w), Ok(())) => {
                label = "merged";
                diff(&w, &lower(&Spec::observe(&m)))?
            }
            (w, _) => return Err(format!("{} into {}: accepted: {}", y.show(), x.show(), w.is_err())),
        }
    }
    Ok(label)
}
/// Models in which much is repeated, of a few sizes.
fn sized(c: &Ctx) -> Vec<(String, Spec)> {
    let all = sizes(c.thorough);
    let want: &[&str] = if c.thorough { &["3 ", "10 ", "12 ", "16 ", "17 ", "33 ", "65 "] } else { &["12 ", "33 "] };
    all.into_iter().filter(|(n, _)| want.iter().any(|w| n.starts_with(w)) && !n.contains("<-")).collect()
}
/// All pairs of a rich or large model and what differs from it in one detail or in the letter case of an id.
fn near_pairs(c: &Ctx) -> Vec<(String, Spec, Spec)> {
    let mut out = vec![];
    let mut bases: Vec<(String, Spec)> = rich().into_iter().enumerate().map(|(i, s)| (format!("rich {i}"), s)).collect();
    let small = bases.len();
    bases.extend(sized(c));
    for (i, (n, base)) in bases.iter().enumerate() {
        for (what, nb) in neighbours(base) {
            out.push((format!("{n}: {what}"), base.clone(), nb));
        }
        if i >= small {
            continue;
        }
        let mut ids = 0;
        map_ids(base, &mut |s| {
            ids += 1;
            s.to_string()
        });
        for i in 0..ids {
            let mut k = 0;
            let sp = map_ids(base, &mut |s| {
                k += 1;
                if k == i + 1 { s.chars().map(|c| if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect() } else { s.to_string() }
            });
            if sp.shapes.len() == base.shapes.len() && lower(&sp) == lower(base) {
                out.push((format!("{n}: id {i} in the other case"), base.clone(), sp));
            }
        }
    }
    out
}

pub fn strip(b: &Body) -> Body {
    let mut b = b.clone();
    for m in b.members_mut() {
        m.traits.clear();
    }
    b
}
pub fn decorate(b: &Body, t: &str, v: Option<V>) -> Shape {
    let mut b = b.clone();
    for m in b.members_mut() {
        m.traits.insert(format!("{t}m"), v.clone());
    }
    Shape { traits: traits(&[(&format!("{t}s"), v)]), body: b }
}
/// Reference merge of two shapes whose traits never conflict.
pub fn ref_merge(a: &Shape, b: &Shape) -> Result<Shape, ()> {
    let mut out = match (&a.body, &b.body) {
        (Body::Unresolved, _) => Shape { traits: a.traits.clone(), body: b.body.clone() },
        (_, Body::Unresolved) => a.clone(),
        (x, y) if strip(x) == strip(y) => {
            let mut o = a.clone();
            let theirs: Vec<Traits> = y.members().iter().map(|m| m.traits.clone()).collect();
            for (m, t) in o.body.members_mut().into_iter().zip(theirs) {
                m.traits = merge_tr(&m.traits, &t)?;
            }
            o
        }
        _ => return Err(()),
    };
    out.traits = merge_tr(&a.traits, &b.traits)?;
    Ok(out)
}
pub fn merge_tr(a: &Traits, b: &Traits) -> Result<Traits, ()> {
    let mut o = a.clone();
    for (k, v) in b {
        let n = match o.get(k) {
            None => v.clone(),
            Some(x) => combine(x, v)?,
        };
        o.insert(k.clone(), n);
    }
    Ok(o)
}

pub fn shapes(c: &mut Ctx) {
    c.level = "model_checking";
    c.rule = "every ordered pair of a family of about 310 shape bodies (all kinds; variants differing in one detail) added under one id, by single addition and by merging models, with and without traits on shapes and members; every triple over a smaller family; a second shape is present throughout; every model with one detail of a rich or large model changed, and with one id in the other letter case, merged with the original both ways; non-trivial = the two bodies are not the same".into();
    let bodies = body_variants();
    let bystander = decorate(&Body::Structure(st(&[mem("x", "a#T")])), "o#z", Some(s("keep")));
    let put = |m: &mut Model, route: &str, id: &str, sh: &Shape| -> bool {
        match route {
            "add" => m.add_shape(shape_to(id, sh)).is_ok(),
            _ => {
                let mut o = Model::new(Version::V10);
                o.add_shape(shape_to(id, sh)).expect("harness: fresh add");
                m.merge(o).is_ok()
            }
        }
    };
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut run = |c: &mut Ctx, route: &'static str, seq: Vec<Shape>, nontrivial: bool| {
        let name = format!("{route} {}", seq.iter().map(|s| show_shape("a#S", s)).collect::<Vec<_>>().join(" then "));
        if c.mine(&name) {
            c.transitions += seq.len() as u64;
            c.traces += 1;
        }
        let st = &mut states;
        c.case_o(&name, nontrivial, || {
            let mut m = Model::new(Version::V10);
            let mut want = Spec::default();
            if !put(&mut m, route, "b#By", &bystander) {
                return Err("bystander refused".into());
            }
            want.shapes.insert("b#By".into(), bystander.clone());
            let mut label = "kept";
            for (i, sh) in seq.iter().enumerate() {
                let expect = match want.shapes.get("a#S") {
                    None => Ok(sh.clone()),
                    Some(o) => ref_merge(o, sh),
                };
                let got = put(&mut m, route, "a#S", sh);
                same(&format!("step {i} accepted"), got, expect.is_ok())?;
                let seen = Spec::observe(&m);
                st.insert(crate::kit::run::h64(&seen.show()));
                match expect {
                    Ok(n) => {
                        if i > 0 && strip(&n.body) != strip(&want.shapes["a#S"].body) {
                            label = "completed";
                        }
                        want.shapes.insert("a#S".into(), n);
                        diff(&want, &seen)?;
                    }
                    Err(()) => {
                        // kind, members and properties stay; so does every other shape
                        let g = seen.shapes.get("a#S").map(|s| strip(&s.body));
                        same("body after refusal", g, Some(strip(&want.shapes["a#S"].body)))?;
                        same("other shape", seen.shapes.get("b#By"), Some(&bystander))?;
                        same("number of shapes", seen.shapes.len(), 2)?;
                        label = "refused";
                        break;
                    }
                }
            }
            Ok(label)
        });
    };
    for x in &bodies {
        for y in &bodies {
            let plain = |b: &Body| Shape { traits: Traits::new(), body: b.clone() };
            for route in ["add", "merge"] {
                run(c, route, vec![plain(x), plain(y)], x != y);
                run(c, route, vec![decorate(x, "t#l", Some(s("v"))), decorate(y, "t#r", None)], x != y);
                run(c, route, vec![decorate(x, "t#l", Some(s("v"))), decorate(y, "t#l", None)], x != y);
            }
        }
    }
    let small: Vec<Body> = {
        let mut v = plain_bodies();
        v.retain(|b| !matches!(b, Body::Simple(s) if s != "string" && s != "integer"));
        v.push(Body::Structure(st(&[mem("m", "smithy.api#String"), mem("membez", "smithy.api#Blob")])));
        v.push(Body::Union(st(&[mem("m", "smithy.api#String"), mem("member", "smithy.api#Blob")])));
        v
    };
    for x in &small {
        for y in &small {
            for z in &small {
                for route in ["add", "merge"] {
                    run(c, route, vec![decorate(x, "t#1", None), decorate(y, "t#2", Some(V::Bool(true))), decorate(z, "t#3", Some(s("z")))], true);
                }
            }
        }
    }
    c.states = states.len() as u64;
    for (name, a, b) in near_pairs(c) {
        let only = |s: &Spec| Spec { shapes: s.shapes.clone(), ..Default::default() };
        c.case_o(&format!("models {name}"), a != b, || check_merge(&only(&a), &only(&b)));
    }
}

pub fn apply(c: &mut Ctx) {
    c.level = "model_checking";
    c.rule = "every sequence of up to three trait values (absent value included) from a pool covering every kind, applied to one trait of a shape and of members of list, set, map, structure and union shapes, one by one, as a batch and by merging; a second trait and other members stay in view; up to 257 applications in a row, of one trait and of many; non-trivial = at least two applications".into();
    let mut pool: Vec<Option<V>> = vec![None];
    pool.extend(value_pool().into_iter().map(Some));
    let n = 3;
    let mut all: Vec<Vec<usize>> = vec![];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        seqs = seqs.iter().flat_map(|q| (0..pool.len()).map(move |i| [q.clone(), vec![i]].concat())).collect();
        all.extend(seqs.iter().cloned());
    }
    // positions: the shape itself, or a member
    let str_ = "smithy.api#String";
    let positions: Vec<(&str, Body, Option<usize>)> = vec![
        ("shape", Body::Simple("string".into()), None),
        ("list member", Body::List(mem("member", str_)), Some(0)),
        ("set member", Body::Set(mem("member", str_)), Some(0)),
        ("map key", Body::Map(mem("key", str_), mem("value", str_)), Some(0)),
        ("map value", Body::Map(mem("key", str_), mem("value", str_)), Some(1)),
        ("structure member", Body::Structure(st(&[mem("m", str_), mem("n", str_)])), Some(1)),
        ("union member", Body::Union(st(&[mem("m", str_), mem("n", str_)])), Some(0)),
        ("service", Body::Service(svc("1")), None),
        ("operation", op3(None, None, &[]), None),
        ("resource", Body::Resource(Res::default()), None),
        ("structure", Body::Structure(st(&[mem("m", str_)])), None),
        ("unresolved", Body::Unresolved, None),
    ];
    let mut states: BTreeSet<u64> = BTreeSet::new();
    for q in &all {
        let vals: Vec<Option<V>> = q.iter().map(|i| pool[*i].clone()).collect();
        let shown: Vec<String> = vals.iter().map(|v| v.as_ref().map(show_v).unwrap_or("no value".into())).collect();
        for (pos, body, mi) in &positions {
            for route in ["direct", "batch", "merge"] {
                if route != "merge" && !matches!(*pos, "shape" | "structure member") {
                    continue;
                }
                if q.len() == 3 && !matches!(*pos, "shape" | "structure member" | "map value") && !c.thorough {
                    continue;
                }
                let name = format!("{pos} {route} {}", shown.join(" then "));
                if c.mine(&name) {
                    c.transitions += q.len() as u64;
                    c.traces += 1;
                }
                let stt = &mut states;
                c.case_o(&name, q.len() > 1, || {
                    let mut want = Shape { traits: Traits::new(), body: body.clone() };
                    fn slot<'a>(w: &'a mut Shape, mi: &Option<usize>) -> &'a mut Traits {
                        match mi {
                            None => &mut w.traits,
                            Some(i) => &mut w.body.members_mut().remove(*i).traits,
                        }
                    }
                    slot(&mut want, mi).insert("t#bystander".into(), Some(s("keep")));
                    let mut m = Model::new(Version::V10);
                    m.add_shape(shape_to("a#S", &want)).map_err(|e| e.to_string())?;
                    let mut label = "stored";
                    for (i, v) in vals.iter().enumerate() {
                        let cur = slot(&mut want, mi).get("t#t").cloned();
                        let expect = match &cur {
                            None => Ok(v.clone()),
                            Some(o) => combine(o, v),
                        };
                        let batch = traits(&[("t#t", v.clone())]);
                        let got = match route {
                            "merge" => {
                                let mut sh = Shape { traits: Traits::new(), body: body.clone() };
                                *slot(&mut sh, mi) = batch;
                                m.add_shape(shape_to("a#S", &sh)).is_ok()
                            }
                            _ => {
                                let t = m.shape_mut(&sid("a#S")).unwrap();
                                if mi.is_none() {
                                    if route == "batch" {
                                        t.append_traits(&traits_to(&batch)).is_ok()
                                    } else {
                                        t.apply_with_value(sid("t#t"), v.as_ref().map(v_to)).is_ok()
                                    }
                                } else {
                                    let mut ms = t.member(&ident("n")).unwrap().clone();
                                    let ok = if route == "batch" {
                                        ms.append_traits(&traits_to(&batch)).is_ok()
                                    } else {
                                        ms.apply_with_value(sid("t#t"), v.as_ref().map(v_to)).is_ok()
                                    };
                                    match t.body_mut() {
                                        ShapeKind::Structure(x) => {
                                            x.add_a_member(ms);
                                        }
                                        _ => unreachable!(),
                                    }
                                    ok
                                }
                            }
                        };
                        same(&format!("step {i} accepted"), got, expect.is_ok())?;
                        match expect {
                            Ok(n) => {
                                if cur.is_some() {
                                    label = if matches!(n, Some(V::Arr(_))) { "appended" } else { "unchanged" };
                                }
                                slot(&mut want, mi).insert("t#t".into(), n);
                            }
                            Err(()) => label = "refused",
                        }
                        let seen = Spec::observe(&m);
                        stt.insert(crate::kit::run::h64(&seen.show()));
                        diff(&Spec { shapes: BTreeMap::from([("a#S".to_string(), want.clone())]), ..Default::default() }, &seen)?;
                    }
                    Ok(label)
                });
            }
        }
    }
    for (pos, body, _) in &positions {
        c.case(&format!("{pos}: trait named by a member id"), true, || {
            let mut t = shape_to("a#S", &Shape { traits: Traits::new(), body: body.clone() });
            for v in [None, Some(V::Bool(true))] {
                same("accepted", t.apply_with_value(sid("t#t$m"), v.as_ref().map(v_to)).is_ok(), false)?;
            }
            same("traits", t.traits().len(), 0)
        });
    }
    c.states = states.len() as u64;
    // values that are almost the same
    for (a, b) in near_values() {
        for (pos, body, mi) in positions.iter().filter(|p| matches!(p.0, "shape" | "map value" | "union member" | "unresolved")) {
            c.case_o(&format!("{pos} near {} then {}", show_v(&a), show_v(&b)), true, || {
                let one = |v: &V| {
                    let mut sh = Shape { traits: Traits::new(), body: body.clone() };
                    let t = traits(&[("t#t", Some(v.clone()))]);
                    match mi {
                        None => sh.traits = t,
                        Some(i) => sh.body.members_mut().remove(*i).traits = t,
                    }
                    Spec { shapes: BTreeMap::from([("a#S".to_string(), sh)]), ..Default::default() }
                };
                let mut m = one(&a).build();
                let ok = match (pos, one(&b).shapes.remove("a#S").unwrap()) {
                    (&"shape", sh) => m.shape_mut(&sid("a#S")).unwrap().append_traits(&traits_to(&sh.traits)).is_ok(),
                    (_, sh) => m.add_shape(shape_to("a#S", &sh)).is_ok(),
                };
                let want = combine(&Some(a.clone()), &Some(b.clone()));
                same("accepted", ok, want.is_ok())?;
                diff(&one(&want.clone().ok().flatten().unwrap_or(a.clone())), &Spec::observe(&m))?;
                Ok(if want.is_ok() { "kept" } else { "refused" })
            });
        }
    }
    // traits of every one of many members
    for n in [3usize, 8, 9, 16, 17, 31, 33, 64, 65, 100, 129, 257, 300] {
        for union in [false, true] {
            for route in ["add", "merge"] {
                let many = |f: &dyn Fn(usize) -> Traits| {
                    let ms = (0..n).map(|i| (format!("m{i}"), Mem { name: format!("m{i}"), target: str_.into(), traits: f(i) })).collect();
                    Shape { traits: Traits::new(), body: if union { Body::Union(ms) } else { Body::Structure(ms) } }
                };
                let spec = |sh: &Shape| Spec { shapes: BTreeMap::from([("a#S".to_string(), sh.clone())]), ..Default::default() };
                let a = many(&|i| if i % 3 == 0 { Traits::new() } else { traits(&[("t#t", Some(V::Arr(vec![V::Int(i as i64)]))), ("t#u", Some(V::Int(i as i64)))]) });
                let b = many(&|i| if i % 5 == 0 { Traits::new() } else { traits(&[("t#t", Some(V::Arr(vec![s("x")]))), ("t#u", Some(V::Int(i as i64))), ("t#w", None)]) });
                c.case_o(&format!("{n} members, union: {union}, by {route}"), true, || {
                    let mut m = spec(&a).build();
                    let give = |m: &mut Model, sh: &Shape| match route {
                        "add" => m.add_shape(shape_to("a#S", sh)).is_ok(),
                        _ => m.merge(spec(sh).build()).is_ok(),
                    };
                    same("accepted", give(&mut m, &b), true)?;
                    diff(&spec(&ref_merge(&a, &b).unwrap()), &Spec::observe(&m))?;
                    // any one member contradicts
                    for k in 0..n {
                        let x = many(&|i| if i == k { traits(&[("t#u", Some(V::Int(-1)))]) } else { Traits::new() });
                        let fresh = k % 15 == 0;
                        same(&format!("contradiction at member {k} accepted"), give(&mut m, &x), fresh)?;
                    }
                    Ok("grown")
                });
            }
        }
    }
    // long histories of one trait, and of many
    for n in [4usize, 9, 17, 33, 65, 100, 257] {
        for (pos, body, mi) in &positions {
            c.case_o(&format!("{pos}: {n} arrays, {n} traits"), true, || {
                let slot = |sh: &mut Shape, t: Traits| match mi {
                    None => sh.traits = t,
                    Some(i) => sh.body.members_mut().remove(*i).traits = t,
                };
                let mut m = Model::new(Version::V10);
                let mut want = Traits::new();
                for i in 0..n {
                    let v = V::Arr((0..i % 3).map(|j| V::Int((i / 2 + j) as i64)).collect());
                    let one = traits(&[("t#t", Some(v)), (&format!("t#t{i}"), Some(V::Int(i as i64))), (&format!("t#u{}", i / 2), None), ("smithy.api#tags", Some(V::Arr(vec![s("x")])))]);
                    want = merge_tr(&want, &one).unwrap();
                    let mut sh = Shape { traits: Traits::new(), body: body.clone() };
                    slot(&mut sh, one);
                    m.add_shape(shape_to("a#S", &sh)).map_err(|e| format!("step {i}: {e}"))?;
                }
                let mut sh = Shape { traits: Traits::new(), body: body.clone() };
                slot(&mut sh, want.clone());
                diff(&Spec { shapes: BTreeMap::from([("a#S".to_string(), sh)]), ..Default::default() }, &Spec::observe(&m))?;
                // any of the many can refuse
                for i in [0, 1, n / 2, n - 1] {
                    let mut sh = Shape { traits: Traits::new(), body: body.clone() };
                    slot(&mut sh, traits(&[(&format!("t#t{i}"), Some(V::Int(-1)))]));
                    same(&format!("contradiction at trait {i} accepted"), m.add_shape(shape_to("a#S", &sh)).is_ok(), false)?;
                }
                Ok("grown")
            });
        }
    }
}

fn merge_pool() -> Vec<Spec> {
    let str_ = "smithy.api#String";
    let stx = |t1: &[(&str, Option<V>)], t2: &[(&str, Option<V>)], tgt: &str| {
        let mut m = mem("m", str_);
        m.traits = traits(t2);
        Spec { shapes: BTreeMap::from([("a#S".to_string(), Shape { traits: traits(t1), body: Body::Structure(st(&[m, mem("n", tgt)])) })]), ..Default::default() }
    };
    let one = |id: &str, t: &[(&str, Option<V>)], b: Body| Spec { shapes: BTreeMap::from([(id.to_string(), Shape { traits: traits(t), body: b })]), ..Default::default() };
    let md = |kv: &[(&str, V)]| Spec { metadata: kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), ..Default::default() };
    let arr = |v: &[i64]| V::Arr(v.iter().map(|i| V::Int(*i)).collect());
    let mut v = vec![
        Spec::default(),
        one("a#A", &[("t#a", None)], Body::Unresolved),
        one("a#A", &[("t#b", Some(arr(&[1])))], Body::Unresolved),
        one("a#A", &[("t#b", Some(arr(&[2, 3])))], Body::Simple("string".into())),
        one("a#A", &[], Body::Simple("integer".into())),
        one("a#A", &[("t#a", Some(s("x")))], Body::Simple("string".into())),
        stx(&[], &[("t#b", Some(arr(&[1])))], str_),
        stx(&[("t#c", Some(s("q")))], &[("t#b", Some(arr(&[2]))), ("t#d", None)], str_),
        stx(&[], &[("t#d", Some(V::Int(1)))], str_),
        stx(&[], &[], "a#A"),
        one("a#S", &[("t#c", Some(s("q")))], Body::Unresolved),
        md(&[("k", arr(&[1])), ("l", s("x"))]),
        md(&[("k", arr(&[2, 3])), ("m", V::None)]),
        md(&[("l", s("x"))]),
        md(&[("l", s("y"))]),
        md(&[("k", s("not an array"))]),
        one("a#L", &[], Body::List({
            let mut m = mem("member", "a#A");
            m.traits = traits(&[("t#b", Some(arr(&[7])))]);
            m
        })),
        one("a#L", &[("t#a", None)], Body::List({
            let mut m = mem("member", "a#A");
            m.traits = traits(&[("t#b", Some(arr(&[8])))]);
            m
        })),
        one("a#L", &[], Body::Set(mem("member", "a#A"))),
        one("a#V", &[], Body::Service(Svc { version: "1".into(), operations: strs(&["a#Op"]), ..Default::default() })),
        one("a#V", &[("t#a", None)], Body::Service(Svc { version: "1".into(), operations: strs(&["a#Op"]), ..Default::default() })),
        one("a#V", &[], Body::Service(Svc { version: "2".into(), operations: strs(&["a#Op"]), ..Default::default() })),
        one("b#A", &[("t#a", Some(s("other namespace")))], Body::Simple("string".into())),
    ];
    // one with several parts
    let mut all = stx(&[("t#c", Some(s("q")))], &[("t#b", Some(arr(&[9])))], str_);
    all.metadata.insert("k".into(), arr(&[4]));
    all.metadata.insert("l".into(), s("x"));
    all.shapes.insert("a#A".into(), Shape { traits: traits(&[("t#a", None)]), body: Body::Simple("string".into()) });
    v.push(all);
    v
}

pub fn sort_arrays(sp: &Spec) -> Spec {
    fn tr(t: &mut Traits) {
        for v in t.values_mut() {
            if let Some(V::Arr(a)) = v {
                a.sort();
            }
        }
    }
    let mut o = sp.clone();
    for v in o.metadata.values_mut() {
        if let V::Arr(a) = v {
            a.sort();
        }
    }
    for s in o.shapes.values_mut() {
        tr(&mut s.traits);
        for m in s.body.members_mut() {
            tr(&mut m.traits);
        }
    }
    o
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// For every kind: the same shape unresolved, dressed in several ways, contradicting, and another shape of its id.
fn kind_pools() -> Vec<Vec<Spec>> {
    let arr = |v: &[i64]| V::Arr(v.iter().map(|i| V::Int(*i)).collect());
    let mut out = vec![];
    let bodies = plain_bodies();
    for (i, b) in bodies.iter().enumerate() {
        let one = |t: Traits, b: Body| Spec { shapes: BTreeMap::from([("a#S".to_string(), Shape { traits: t, body: b })]), ..Default::default() };
        let dress = |v: Option<V>, last: bool| {
            let mut sh = decorate(b, "t#b", v.clone());
            if last {
                let n = sh.body.members_mut().len();
                for (k, m) in sh.body.members_mut().into_iter().enumerate() {
                    if k + 1 < n {
                        m.traits.clear();
                    }
                }
            }
            Spec { shapes: BTreeMap::from([("a#S".to_string(), sh)]), ..Default::default() }
        };
        out.push(vec![
            one(traits(&[("t#bs", Some(arr(&[5]))), ("t#u", None)]), Body::Unresolved),
            one(traits(&[("t#u", Some(s("x")))]), Body::Unresolved),
            one(Traits::new(), b.clone()),
            dress(Some(arr(&[1])), false),
            dress(Some(arr(&[2, 3])), true),
            dress(None, false),
            dress(Some(s("x")), true),
            one(traits(&[("t#u", None)]), bodies[(i + 5) % bodies.len()].clone()),
        ]);
    }
    out
}

pub fn order(c: &mut Ctx) {
    c.rule = "every multiset of two and three models (four thorough) from a pool of 24 overlapping ones, and from pools of eight for every kind of shape, merged in every order, starting from the first model and from an empty one, under three hash-seed settings; non-trivial = at least two of the models touch the same shape or key".into();
    for pool in std::iter::once(merge_pool()).chain(kind_pools()) {
        orders(c, &pool);
    }
}
fn orders(c: &mut Ctx, pool: &[Spec]) {
    let n = pool.len();
    let mut sets: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        for j in i..n {
            sets.push(vec![i, j]);
            for k in j..n {
                sets.push(vec![i, j, k]);
                if c.thorough {
                    for l in k..n {
                        sets.push(vec![i, j, k, l]);
                    }
                }
            }
        }
    }
    let mut owned: Vec<(String, Vec<usize>)> = vec![];
    for q in sets {
        let name = q.iter().map(|i| format!("[{}]", pool[*i].show())).collect::<Vec<_>>().join(" + ");
        if c.mine(&name) {
            owned.push((name, q));
        }
    }
    for (name, q) in owned {
        let overlap = {
            let mut keys: Vec<String> = vec![];
            for i in &q {
                keys.extend(pool[*i].shapes.keys().cloned());
                keys.extend(pool[*i].metadata.keys().map(|k| format!("meta {k}")));
            }
            let n = keys.len();
            keys.sort();
            keys.dedup();
            keys.len() < n
        };
        c.case_o(&name.clone(), overlap, move || {
            let mut first: Option<Result<Spec, ()>> = None;
            for seed in [1u64, 7, 1234567] {
                let qq = q.clone();
                let got: Vec<Result<Spec, ()>> = with_seed(seed, || {
                    let mut out = vec![];
                    for p in perms(qq.len()) {
                        for from_empty in [false, true] {
                            let ms: Vec<Model> = p.iter().map(|i| pool[qq[*i]].build()).collect();
                            let mut it = ms.into_iter();
                            let mut acc = if from_empty { Model::new(Version::V10) } else { it.next().unwrap() };
                            let mut ok = true;
                            for m in it {
                                if acc.merge(m).is_err() {
                                    ok = false;
                                    break;
                                }
                            }
                            out.push(if ok { Ok(sort_arrays(&Spec::observe(&acc))) } else { Err(()) });
                        }
                    }
                    out
                });
                for g in got {
                    match &first {
                        None => first = Some(g),
                        Some(f) => match (f, &g) {
                            (Ok(a), Ok(b)) => diff(a, b).map_err(|e| format!("two orders differ: {e}"))?,
                            (Err(()), Err(())) => {}
                            (a, _) => return Err(format!("merging {} in one order and not in another", if a.is_ok() { "succeeds" } else { "fails" })),
                        },
                    }
                }
            }
            Ok(if first.unwrap().is_ok() { "merged" } else { "refused in every order" })
        });
    }
}

pub fn complete(c: &mut Ctx) {
    c.rule = "every model of up to two shapes over all 22 kinds with and without traits at ids in two namespaces, every model of three and four shapes over resolved/unresolved, every order of resolving; the shared families of models, every one-detail change of rich ones, and up to 300 shapes of which a regular part is unresolved; non-trivial = at least one shape is unresolved".into();
    fn check(m: &Model, want: &Spec) -> Result<(), String> {
        let un: BTreeSet<String> = want.shapes.iter().filter(|(_, s)| s.body == Body::Unresolved).map(|(k, _)| k.clone()).collect();
        let re: BTreeSet<String> = want.shapes.keys().filter(|k| !un.contains(*k)).cloned().collect();
        let sorted = |i: Vec<String>| {
            let mut v = i;
            v.sort();
            v
        };
        same("unresolved names", sorted(m.unresolved_shape_names().map(|x| x.to_string()).collect()), un.iter().cloned().collect::<Vec<_>>())?;
        same("resolved names", sorted(m.shape_names().map(|x| x.to_string()).collect()), re.iter().cloned().collect::<Vec<_>>())?;
        same("is_complete", m.is_complete(), un.is_empty())?;
        let mut vs: Vec<Box<dyn Validator>> = vec![Box::new(NoUnresolvedReferences::default())];
        let iss = run_validation_actions(&mut vs, m, false).map_err(|e| e.to_string())?;
        same("issues", iss.len(), un.len())?;
        for u in &un {
            let quoted = |t: &str| t.split(|ch: char| ch != '#' && ch != '$' && ch != '.' && ch != '_' && !ch.is_alphanumeric()).any(|w| w.trim_end_matches('.') == u);
            same(&format!("issues naming {u}"), iss.iter().filter(|i| quoted(i.message())).count(), 1)?;
        }
        Ok(())
    }
    let mut kinds: Vec<Shape> = vec![];
    for b in plain_bodies() {
        kinds.push(Shape { traits: Traits::new(), body: b.clone() });
        kinds.push(decorate(&b, "t#x", None));
    }
    let ids = ["a#A", "b.c#A"];
    c.case("empty model", false, || check(&Model::new(Version::V10), &Spec::default()));
    for x in &kinds {
        let sp = Spec { shapes: BTreeMap::from([("a#A".to_string(), x.clone())]), ..Default::default() };
        c.case(&sp.show(), x.body == Body::Unresolved, || check(&sp.build(), &sp));
        for y in &kinds {
            let sp = Spec { shapes: BTreeMap::from([(ids[0].to_string(), x.clone()), (ids[1].to_string(), y.clone())]), ..Default::default() };
            c.case(&sp.show(), x.body == Body::Unresolved || y.body == Body::Unresolved, || check(&sp.build(), &sp));
        }
    }
    for (name, sp) in models(c.thorough) {
        let un = sp.shapes.values().any(|s| s.body == Body::Unresolved);
        c.case(&name, un, || check(&sp.build(), &sp));
    }
    for (k, base) in rich().iter().enumerate() {
        for (what, sp) in neighbours(base) {
            c.case(&format!("rich {k}: {what}"), sp.shapes.values().any(|s| s.body == Body::Unresolved), || check(&sp.build(), &sp));
        }
    }
    // any part of many shapes unresolved, in several namespaces, with the same names
    for n in [5usize, 12, 33, 100, 300] {
        for every in [1usize, 2, 3, 7, n - 1, n] {
            for off in [0, every - 1] {
                let mut sp = Spec::default();
                for i in 0..n {
                    let id = format!("{}#S{}", ["a", "a.b", "smithy.api", "z_1"][i % 4], i / 4);
                    let body = if i % every == off { Body::Unresolved } else { plain_bodies()[i % 17].clone() };
                    sp.shapes.insert(id, if i % 5 == 2 { decorate(&body, "t#x", None) } else { Shape { traits: Traits::new(), body } });
                }
                c.case(&format!("{n} shapes, every {every}th from {off} unresolved"), true, || check(&sp.build(), &sp));
            }
        }
    }
    // resolving step by step, in every order; members may be unresolved too
    let all = ["a#A", "a#B", "b.c#A", "a#A$m"];
    for bits in 0..16u32 {
        let start: Vec<&str> = (0..4).filter(|i| bits & (1 << i) != 0).map(|i| all[i]).collect();
        for p in perms(start.len()) {
            let name = format!("unresolved {start:?} resolved in order {p:?}");
            c.case(&name, !start.is_empty(), || {
                let mut sp = Spec::default();
                sp.shapes.insert("z#Always".into(), Shape { traits: Traits::new(), body: Body::Simple("string".into()) });
                for i in &start {
                    sp.shapes.insert(i.to_string(), Shape { traits: Traits::new(), body: Body::Unresolved });
                }
                let mut m = sp.build();
                check(&m, &sp)?;
                for i in &p {
                    let id = start[*i];
                    if id.contains('$') {
                        m.remove_shape(&sid(id));
                        sp.shapes.remove(id);
                    } else {
                        let sh = Shape { traits: Traits::new(), body: Body::Structure(st(&[mem("m", "a#A")])) };
                        m.add_shape(shape_to(id, &sh)).map_err(|e| e.to_string())?;
                        sp.shapes.insert(id.to_string(), sh);
                    }
                    check(&m, &sp)?;
                }
                Ok(())
            });
        }
    }
}
