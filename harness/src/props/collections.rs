//! C03: models and shapes behave as the plain maps, sequences and optionals they look like.
use crate::kit::bfs::{explore, op, same, OpDef};
use crate::kit::gen::*;
use crate::kit::run::Ctx;
use crate::kit::spec::*;
use atelier_core::model::shapes::*;
use atelier_core::model::values::{Number, Value};
use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
use atelier_core::Version;
use std::collections::{BTreeMap, HashMap};

fn lc(s: &str) -> String {
    s.to_lowercase()
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

// ---------------------------------------------------------------------------- model: shapes
const SHAPE_IDS: [&str; 5] = ["a.b#A", "a.b#B", "c#A", "a.b#Aa", "A.b#a"];

fn model_shapes(c: &mut Ctx, depth: usize) {
    // reference: lower-case id -> (id as first given, body)
    type R = BTreeMap<String, (String, Body)>;
    let bodies = || {
        vec![
            Body::Simple("string".into()),
            Body::Simple("integer".into()),
            Body::Structure(st(&[mem("m", "smithy.api#String")])),
            Body::Unresolved,
        ]
    };
    let mut ops: Vec<OpDef<Model, R>> = vec![];
    for id in SHAPE_IDS {
        for b in bodies() {
            ops.push(op(format!("add {} {id}", b.kind()), move |m: &mut Model, r: &mut R| {
                let got = m.add_shape(TopLevelShape::new(sid(id), body_to(&b)));
                let want = match r.get(&lc(id)) {
                    None => {
                        r.insert(lc(id), (id.to_string(), b.clone()));
                        true
                    }
                    Some((_, x)) if *x == Body::Unresolved => {
                        let first = r[&lc(id)].0.clone();
                        r.insert(lc(id), (first, b.clone()));
                        true
                    }
                    Some((_, x)) => b == Body::Unresolved || *x == b,
                };
                same("add_shape accepted", got.is_ok(), want)
            }));
        }
        ops.push(op(format!("remove {id}"), move |m: &mut Model, r: &mut R| {
            let g = m.remove_shape(&sid(id)).map(|s| body_from(s.body()));
            same("remove_shape", g, r.remove(&lc(id)).map(|x| x.1))
        }));
        ops.push(op(format!("replace body of {id}"), move |m: &mut Model, r: &mut R| {
            let g = m.shape_mut(&sid(id)).map(|s| s.set_body(ShapeKind::Simple(Simple::Blob))).is_some();
            let w = r.get_mut(&lc(id)).map(|x| x.1 = Body::Simple("blob".into())).is_some();
            same("shape_mut", g, w)
        }));
    }
    ops.push(op("add string a.b#A$m", |m: &mut Model, _: &mut R| {
        same("add_shape with a member id", m.add_shape(TopLevelShape::new(sid("a.b#A$m"), ShapeKind::Simple(Simple::String))).is_ok(), false)
    }));
    ops.push(op("add unresolved a.b#A$m", |m: &mut Model, r: &mut R| {
        r.entry("a.b#a$m".into()).or_insert(("a.b#A$m".into(), Body::Unresolved));
        same("add_shape unresolved member", m.add_shape(TopLevelShape::new(sid("a.b#A$m"), ShapeKind::Unresolved)).is_ok(), true)
    }));
    explore(c, "model shapes", (Model::new(Version::V10), R::new()), &ops, depth, |m, r| {
        same("has_shapes", m.has_shapes(), !r.is_empty())?;
        for id in SHAPE_IDS.iter().chain(["a.b#A$m", "z#Z", "a.b#B$m"].iter()) {
            let w = r.get(&lc(id));
            same(&format!("has_shape {id}"), m.has_shape(&sid(id)), w.is_some())?;
            let g = m.shape(&sid(id)).map(|s| (s.id().to_string(), body_from(s.body())));
            same(&format!("shape {id}"), g, w.cloned())?;
        }
        let all: Vec<String> = m.shapes().map(|s| s.id().to_string()).collect();
        same("shapes", sorted(all), sorted(r.values().map(|x| x.0.clone()).collect()))?;
        let ns = m.namespaces();
        let want: std::collections::BTreeSet<String> =
            r.values().filter(|x| x.1 != Body::Unresolved).map(|x| lc(x.0.split('#').next().unwrap())).collect();
        same("namespaces", ns.iter().map(|n| lc(&n.to_string())).collect::<std::collections::BTreeSet<_>>(), want.clone())?;
        same("namespaces are distinct", ns.len(), want.len())
    });
}

// ---------------------------------------------------------------------------- model: metadata
fn model_metadata(c: &mut Ctx, depth: usize) {
    type R = BTreeMap<String, V>;
    let mut ops: Vec<OpDef<Model, R>> = vec![];
    for k in ["k", "K", "k ", ""] {
        let mut vs = vec![s("x"), V::Int(0), V::Arr(vec![V::Int(1)]), obj(&[("p", V::None)])];
        if k == "k" {
            // the values that are easily taken for no value
            vs.extend([V::None, V::Arr(vec![]), s(""), V::Bool(false)]);
        }
        for v in vs {
            ops.push(op(format!("add {k:?}={}", show_v(&v)), move |m: &mut Model, r: &mut R| {
                let g = m.add_metadata(k.to_string(), v_to(&v));
                match (r.get(k).cloned(), &v) {
                    (None, _) => {
                        r.insert(k.into(), v.clone());
                        same("add_metadata", g.ok(), Some(None))
                    }
                    (Some(V::Arr(a)), V::Arr(b)) => {
                        let mut n = a.clone();
                        n.extend(b.iter().cloned());
                        r.insert(k.into(), V::Arr(n));
                        same("add_metadata accepted", g.is_ok(), true)
                    }
                    (Some(old), new) => same("add_metadata accepted", g.is_ok(), old == *new),
                }
            }));
        }
        ops.push(op(format!("remove {k:?}"), move |m: &mut Model, r: &mut R| {
            same("remove_metadata", m.remove_metadata(k).map(|v| v_from(&v)), r.remove(k))
        }));
    }
    explore(c, "model metadata", (Model::new(Version::V10), R::new()), &ops, depth, |m, r| {
        same("has_metadata", m.has_metadata(), !r.is_empty())?;
        for k in ["k", "K", "k ", " k", "", " ", "kk", "other"] {
            same(&format!("has_metadata_value {k:?}"), m.has_metadata_value(k), r.contains_key(k))?;
            same(&format!("metadata_value {k:?}"), m.metadata_value(k).map(v_from), r.get(k).cloned())?;
        }
        same("metadata", m.metadata().map(|(k, v)| (k.clone(), v_from(v))).collect::<R>(), r.clone())?;
        same("metadata count", m.metadata().count(), r.len())
    });
}

// ---------------------------------------------------------------------------- structure / union
fn structure(c: &mut Ctx, depth: usize) {
    type R = BTreeMap<String, (String, String, usize)>;
    let names = ["a", "b", "A", "long_name"];
    let mut ops: Vec<OpDef<StructureOrUnion, R>> = vec![];
    for n in names {
        for t in ["x#T", "y#U"] {
            ops.push(op(format!("add_member {n} {t}"), move |m: &mut StructureOrUnion, r: &mut R| {
                m.add_member(ident(n), sid(t));
                r.insert(lc(n), (n.into(), t.into(), 0));
                Ok(())
            }));
        }
        ops.push(op(format!("add_a_member {n} x#V with a trait"), move |m: &mut StructureOrUnion, r: &mut R| {
            let mut ms = MemberShape::new(ident(n), sid("x#V"));
            ms.apply(sid("t#t")).map_err(|e| e.to_string())?;
            let g = m.add_a_member(ms).map(|o| (o.id().to_string(), o.target().to_string(), o.traits().len()));
            same("add_a_member", g, r.insert(lc(n), (n.into(), "x#V".into(), 1)))
        }));
        ops.push(op(format!("remove_member {n}"), move |m: &mut StructureOrUnion, r: &mut R| {
            let g = m.remove_member(&ident(n)).map(|o| (o.id().to_string(), o.target().to_string(), o.traits().len()));
            same("remove_member", g, r.remove(&lc(n)))
        }));
    }
    explore(c, "structure members", (StructureOrUnion::new(), R::new()), &ops, depth, move |m, r| {
        same("has_members", m.has_members(), !r.is_empty())?;
        for as_union in [false, true] {
            let t = TopLevelShape::new(
                sid("a#S"),
                if as_union { ShapeKind::Union(m.clone()) } else { ShapeKind::Structure(m.clone()) },
            );
            for n in names.iter().chain(["c", "aa"].iter()) {
                let want = r.get(&lc(n)).map(|x| (x.1.clone(), x.2));
                same(&format!("has_member {n}"), m.has_member(&ident(n)), want.is_some())?;
                same(&format!("member {n}"), m.member(&ident(n)).map(|x| (x.target().to_string(), x.traits().len())), want.clone())?;
                same(&format!("shape.has_member {n}"), t.has_member(&ident(n)), want.is_some())?;
                same(&format!("shape.member {n}"), t.member(&ident(n)).map(|x| (x.target().to_string(), x.traits().len())), want)?;
            }
        }
        let ms: Vec<String> = m.members().map(|x| format!("{} {}", lc(&x.id().to_string()), x.target())).collect();
        same("members", sorted(ms), r.iter().map(|(k, v)| format!("{k} {}", v.1)).collect::<Vec<_>>())?;
        let copy = StructureOrUnion::with_members(&m.members().cloned().collect::<Vec<_>>());
        same("with_members gives the same members", copy == *m, true)
    });
}

// ---------------------------------------------------------------------------- generated member APIs
macro_rules! array_ops {
    ($ops:ident, $ty:ty, $r:ty, [$($f:tt)+], $coll:ident, $one:literal, $add:ident, $append:ident, $set:ident, $remove:ident) => {
        for x in ["a#X", "a#Y"] {
            $ops.push(op(format!(concat!("add ", $one, " {}"), x), move |i: &mut $ty, r: &mut $r| {
                i.$add(sid(x));
                r.$($f)+.push(x.to_string());
                Ok(())
            }));
            $ops.push(op(format!(concat!("remove ", $one, " {}"), x), move |i: &mut $ty, r: &mut $r| {
                i.$remove(&sid(x));
                r.$($f)+.retain(|y| y != x);
                Ok(())
            }));
        }
        $ops.push(op(concat!("remove ", $one, " A#x"), move |i: &mut $ty, r: &mut $r| {
            i.$remove(&sid("A#x"));
            r.$($f)+.retain(|y| y != "a#X");
            Ok(())
        }));
        for xs in [&["a#Y", "b#Z", "a#Y"][..], &[][..]] {
            $ops.push(op(format!(concat!("append ", $one, " {:?}"), xs), move |i: &mut $ty, r: &mut $r| {
                i.$append(&xs.iter().map(|x| sid(x)).collect::<Vec<_>>());
                r.$($f)+.extend(xs.iter().map(|x| x.to_string()));
                Ok(())
            }));
            $ops.push(op(format!(concat!("set ", $one, "s {:?}"), xs), move |i: &mut $ty, r: &mut $r| {
                i.$set(&xs.iter().map(|x| sid(x)).collect::<Vec<_>>());
                r.$($f)+ = xs.iter().map(|x| x.to_string()).collect();
                Ok(())
            }));
        }
    };
}
macro_rules! array_same {
    ($i:ident, $want:expr, $coll:ident, $has:ident) => {
        same(stringify!($coll), $i.$coll().map(|x| x.to_string()).collect::<Vec<_>>(), $want.clone())?;
        same(stringify!($has), $i.$has(), !$want.is_empty())?;
    };
}
macro_rules! opt_ops {
    ($ops:ident, $ty:ty, $r:ty, [$($f:tt)+], $name:literal, $set:ident, $unset:ident) => {
        for x in ["a#X", "b#Y"] {
            $ops.push(op(format!(concat!("set ", $name, " {}"), x), move |i: &mut $ty, r: &mut $r| {
                i.$set(sid(x));
                r.$($f)+ = Some(x.to_string());
                Ok(())
            }));
        }
        $ops.push(op(concat!("unset ", $name), move |i: &mut $ty, r: &mut $r| {
            i.$unset();
            r.$($f)+ = None;
            Ok(())
        }));
    };
}
macro_rules! opt_same {
    ($i:ident, $want:expr, $get:ident, $has:ident) => {
        same(stringify!($get), $i.$get().as_ref().map(|x| x.to_string()), $want.clone())?;
        same(stringify!($has), $i.$has(), $want.is_some())?;
    };
}

fn service(c: &mut Ctx, depth: usize) {
    let mut ops: Vec<OpDef<Service, Svc>> = vec![];
    array_ops!(ops, Service, Svc, [operations], operations, "operation", add_operation, append_operations, set_operations, remove_operation);
    array_ops!(ops, Service, Svc, [resources], resources, "resource", add_resource, append_resources, set_resources, remove_resource);
    for v in ["1", "2021-01-01", " "] {
        ops.push(op(format!("set version {v:?}"), move |i: &mut Service, r: &mut Svc| {
            i.set_version(v);
            r.version = v.into();
            Ok(())
        }));
    }
    for (k, v) in [("a#X", "Q"), ("a#X", "P"), ("b#X", "Q")] {
        ops.push(op(format!("rename {k} {v}"), move |i: &mut Service, r: &mut Svc| {
            same("insert_rename_shape", i.insert_rename_shape(sid(k), ident(v)).map(|x| x.to_string()), r.renames.insert(k.into(), v.into()))
        }));
        ops.push(op(format!("remove rename {k}"), move |i: &mut Service, r: &mut Svc| {
            same("remove_rename_shape", i.remove_rename_shape(&sid(k)).map(|x| x.to_string()), r.renames.remove(k))
        }));
    }
    ops.push(op("remove rename B#x", |i: &mut Service, r: &mut Svc| {
        same("remove_rename_shape", i.remove_rename_shape(&sid("B#x")).map(|x| x.to_string()), r.renames.remove("b#X"))
    }));
    ops.push(op("set renames", |i: &mut Service, r: &mut Svc| {
        i.set_renames(HashMap::from([(sid("c#C"), ident("D"))]));
        r.renames = BTreeMap::from([("c#C".into(), "D".into())]);
        Ok(())
    }));
    let init = (Service::new("1"), Svc { version: "1".into(), ..Default::default() });
    explore(c, "service", init, &ops, depth, |i, r| {
        same("version", i.version().clone(), r.version.clone())?;
        array_same!(i, r.operations, operations, has_operations);
        array_same!(i, r.resources, resources, has_resources);
        same("has_renames", i.has_renames(), !r.renames.is_empty())?;
        for k in ["a#X", "b#X", "c#C", "z#Z"] {
            same("has_rename_shape", i.has_rename_shape(&sid(k)), r.renames.contains_key(k))?;
            same("contains_rename_shape", i.contains_rename_shape(&sid(k)).map(|x| x.to_string()), r.renames.get(k).cloned())?;
        }
        same("renames", i.renames().map(|(k, v)| (k.to_string(), v.to_string())).collect::<BTreeMap<_, _>>(), r.renames.clone())
    });
}

fn operation(c: &mut Ctx, depth: usize) {
    let mut ops: Vec<OpDef<Operation, Op>> = vec![];
    array_ops!(ops, Operation, Op, [errors], errors, "error", add_error, append_errors, set_errors, remove_error);
    opt_ops!(ops, Operation, Op, [input], "input", set_input, unset_input);
    opt_ops!(ops, Operation, Op, [output], "output", set_output, unset_output);
    explore(c, "operation", (Operation::default(), Op::default()), &ops, depth, |i, r| {
        array_same!(i, r.errors, errors, has_errors);
        opt_same!(i, r.input, input, has_input);
        opt_same!(i, r.output, output, has_output);
        Ok(())
    });
}

fn resource(c: &mut Ctx, depth: usize) {
    let mut ops: Vec<OpDef<Resource, Res>> = vec![];
    array_ops!(ops, Resource, Res, [operations], operations, "operation", add_operation, append_operations, set_operations, remove_operation);
    array_ops!(ops, Resource, Res, [collection_operations], collection_operations, "collection operation", add_collection_operation, append_collection_operations, set_collection_operations, remove_collection_operation);
    array_ops!(ops, Resource, Res, [resources], resources, "resource", add_resource, append_resources, set_resources, remove_resource);
    macro_rules! life {
        ($n:literal, $lit:literal, $set:ident, $unset:ident) => {
            opt_ops!(ops, Resource, Res, [life[$n]], $lit, $set, $unset);
        };
    }
    life!(0, "create", set_create, unset_create);
    life!(1, "put", set_put, unset_put);
    life!(2, "read", set_read, unset_read);
    life!(3, "update", set_update, unset_update);
    life!(4, "delete", set_delete, unset_delete);
    life!(5, "list", set_list, unset_list);
    for (k, v) in [("id", "a#X"), ("id", "a#Y"), ("key", "a#X")] {
        ops.push(op(format!("add identifier {k} {v}"), move |i: &mut Resource, r: &mut Res| {
            same("add_identifier", i.add_identifier(ident(k), sid(v)).map(|x| x.to_string()), r.identifiers.insert(k.into(), v.into()))
        }));
        ops.push(op(format!("remove identifier {k}"), move |i: &mut Resource, r: &mut Res| {
            same("remove_identifier", i.remove_identifier(&ident(k)).map(|x| x.to_string()), r.identifiers.remove(k))
        }));
    }
    ops.push(op("remove identifier Id", |i: &mut Resource, r: &mut Res| {
        same("remove_identifier", i.remove_identifier(&ident("Id")).map(|x| x.to_string()), r.identifiers.remove("id"))
    }));
    ops.push(op("set identifiers", |i: &mut Resource, r: &mut Res| {
        i.set_identifiers(HashMap::from([(ident("n"), sid("c#C"))]));
        r.identifiers = BTreeMap::from([("n".into(), "c#C".into())]);
        Ok(())
    }));
    explore(c, "resource", (Resource::default(), Res::default()), &ops, depth, |i, r| {
        array_same!(i, r.operations, operations, has_operations);
        array_same!(i, r.collection_operations, collection_operations, has_collection_operations);
        array_same!(i, r.resources, resources, has_resources);
        opt_same!(i, r.life[0], create, has_create);
        opt_same!(i, r.life[1], put, has_put);
        opt_same!(i, r.life[2], read, has_read);
        opt_same!(i, r.life[3], update, has_update);
        opt_same!(i, r.life[4], delete, has_delete);
        opt_same!(i, r.life[5], list, has_list);
        same("has_any_resource_operation", i.has_any_resource_operation(), r.life.iter().any(|x| x.is_some()))?;
        same("has_identifiers", i.has_identifiers(), !r.identifiers.is_empty())?;
        for k in ["id", "key", "n", "zz"] {
            same(&format!("has_identifier {k}"), i.has_identifier(&ident(k)), r.identifiers.contains_key(k))?;
            same(&format!("identifier {k}"), i.identifier(&ident(k)).map(|x| x.to_string()), r.identifiers.get(k).cloned())?;
        }
        same("identifiers", i.identifiers().map(|(k, v)| (k.to_string(), v.to_string())).collect::<BTreeMap<_, _>>(), r.identifiers.clone())
    });
}

// ---------------------------------------------------------------------------- shape-checked setters
/// Kinds made from the bodies they hold, and what a shape says of itself, in every namespace.
fn kinds(c: &mut Ctx) {
    for b in super::fam::plain_bodies() {
        c.case(&format!("a {} as a kind", b.kind()), true, || {
            let k = body_to(&b);
            let from = match &k {
                ShapeKind::Simple(x) => ShapeKind::from(x.clone()),
                ShapeKind::Service(x) => ShapeKind::from(x.clone()),
                ShapeKind::Operation(x) => ShapeKind::from(x.clone()),
                ShapeKind::Resource(x) => ShapeKind::from(x.clone()),
                x => x.clone(),
            };
            same("the kind made of the body", body_from(&from), b.clone())?;
            same("the kind equals itself", from == k, true)?;
            for ns in ["a", "smithy", "smithy.api", "smithy.apis", "a.smithy.api", "smithy.api.a"] {
                let t = TopLevelShape::new(sid(&format!("{ns}#Given")), k.clone());
                let ids = ["a#Given", "smithy#Given", "smithy.api#Given", "smithy.apis#Given", "SMITHY.API#given", "a#Other", "a#Given$m"];
                for i in ids {
                    same(&format!("is {i}"), t.is(&sid(i)), lc(i) == lc(&format!("{ns}#Given")))?;
                }
                let m = MemberShape::new(Identifier::new_unchecked("Given"), sid(ids[0]));
                same("member is", ["Given", "gIVEN", "Give", "Given_"].map(|n| m.is(&Identifier::new_unchecked(n))), [true, true, false, false])?;
                same("is a prelude shape", t.is_prelude_shape(), ns == "smithy.api")?;
                same("has members", t.has_members(), !matches!(b, Body::Simple(_) | Body::Unresolved))?;
            }
            for o in super::fam::plain_bodies() {
                same(&format!("equal to a {}", o.kind()), body_to(&o) == k, o == b)?;
            }
            Ok(())
        });
    }
}
fn checked_setters(c: &mut Ctx) {
    kinds(c);
    let bodies: Vec<Body> = super::fam::plain_bodies();
    for b in &bodies {
        c.case(&format!("checked setters given a {}", b.kind()), true, || {
            let t = TopLevelShape::new(sid("a#Given"), body_to(b));
            let is_op = matches!(b, Body::Operation(_));
            let is_res = matches!(b, Body::Resource(_));
            let is_data = !matches!(b, Body::Operation(_) | Body::Resource(_) | Body::Service(_) | Body::Unresolved);
            let mut sv = Service::new("1");
            sv.add_operation_shape(&t);
            sv.add_resource_shape(&t);
            same("service operation", sv.operations().map(|x| x.to_string()).collect::<Vec<_>>(), if is_op { vec!["a#Given".to_string()] } else { vec![] })?;
            same("service resource", sv.has_resources(), is_res)?;
            let mut o = Operation::default();
            o.set_input_shape(&t);
            same("input only", (o.has_input(), o.has_output(), o.has_errors()), (is_data, false, false))?;
            o.set_output_shape(&t);
            same("output", o.output().as_ref().map(|x| x.to_string()), is_data.then(|| "a#Given".to_string()))?;
            o.add_error_shape(&t);
            same("errors", o.errors().count(), is_data as usize)?;
            let all = |r: &Resource| {
                [r.create(), r.put(), r.read(), r.update(), r.delete(), r.list()].iter().map(|x| x.is_some()).collect::<Vec<_>>()
            };
            for k in 0..6 {
                let mut r = Resource::default();
                match k {
                    0 => r.set_create_operation_shape(&t),
                    1 => r.set_put_operation_shape(&t),
                    2 => r.set_read_operation_shape(&t),
                    3 => r.set_update_operation_shape(&t),
                    4 => r.set_delete_operation_shape(&t),
                    _ => r.set_list_operation_shape(&t),
                }
                same(&format!("resource {} set", LIFE[k]), all(&r), (0..6).map(|j| is_op && j == k).collect())?;
                same("nothing else set", (r.has_operations(), r.has_collection_operations(), r.has_resources()), (false, false, false))?;
            }
            let mut r = Resource::default();
            r.add_operation_shape(&t);
            same("resource operations", (r.has_operations(), r.has_collection_operations(), r.has_resources()), (is_op, false, false))?;
            let mut r = Resource::default();
            r.add_collection_operation_shape(&t);
            same("resource collection operations", (r.has_operations(), r.has_collection_operations(), r.has_resources()), (false, is_op, false))?;
            let mut r = Resource::default();
            r.add_resource_shape(&t);
            same("resource resources", (r.has_operations(), r.has_collection_operations(), r.has_resources()), (false, false, is_res))
        });
        // kind predicates and downcasts
        c.case(&format!("kind predicates of a {}", b.kind()), true, || {
            let t = TopLevelShape::new(sid("a#Given"), body_to(b));
            let k = t.body();
            let simple = matches!(b, Body::Simple(_));
            let preds = [
                ("simple", t.is_simple(), k.is_simple(), k.as_simple().is_some()),
                ("list", t.is_list(), k.is_list(), k.as_list().is_some()),
                ("set", t.is_set(), k.is_set(), k.as_set().is_some()),
                ("map", t.is_map(), k.is_map(), k.as_map().is_some()),
                ("structure", t.is_structure(), k.is_structure(), k.as_structure().is_some()),
                ("union", t.is_union(), k.is_union(), k.as_union().is_some()),
                ("service", t.is_service(), k.is_service(), k.as_service().is_some()),
                ("operation", t.is_operation(), k.is_operation(), k.as_operation().is_some()),
                ("resource", t.is_resource(), k.is_resource(), k.as_resource().is_some()),
            ];
            for (n, a, d, e) in preds {
                let w = if simple { n == "simple" } else { n == b.kind() };
                same(&format!("is_{n}"), (a, d, e), (w, w, w))?;
            }
            same("is_unresolved", (t.is_unresolved(), k.is_unresolved()), (*b == Body::Unresolved, *b == Body::Unresolved))?;
            for n in ["member", "key", "value", "other", "MEMBER", "Member", "Key", "kEY", "VALUE", "keys", "m", "M", "_member"] {
                let l = n.to_lowercase();
                let want = match b {
                    Body::List(m) | Body::Set(m) if l == "member" => Some(m.target.clone()),
                    Body::Map(k, _) if l == "key" => Some(k.target.clone()),
                    Body::Map(_, v) if l == "value" => Some(v.target.clone()),
                    Body::Structure(ms) | Body::Union(ms) => ms.values().find(|m| m.name.to_lowercase() == l).map(|m| m.target.clone()),
                    _ => None,
                };
                same(&format!("member {n}"), t.member(&ident(n)).map(|m| m.target().to_string()), want.clone())?;
                same(&format!("has_member {n}"), t.has_member(&ident(n)), want.is_some())?;
            }
            same("body survives", body_from(t.body()), b.clone())
        });
        // replacing a body keeps id and traits and takes the new body entirely
        for b2 in &bodies {
            c.case(&format!("replace a {} by a {}", b.kind(), b2.kind()), b != b2, || {
                let mut t = TopLevelShape::new(sid("a#Given"), body_to(b));
                t.apply_with_value(sid("t#x"), Some(Value::Boolean(true))).map_err(|e| e.to_string())?;
                t.set_body(body_to(b2));
                same("id", t.id().to_string(), "a#Given".to_string())?;
                same("traits", t.traits().len(), 1)?;
                same("body", body_from(t.body()), b2.clone())?;
                *t.body_mut() = body_to(b);
                same("body through body_mut", body_from(t.body()), b.clone())?;
                t.set_id(sid("z#Z"));
                same("set_id", t.id().to_string(), "z#Z".to_string())?;
                same("is", t.is(&sid("z#Z")) && !t.is(&sid("a#Given")), true)
            });
        }
    }
    for (tgt, tgt2) in [("a#X", "b#Y"), ("smithy.api#String", "a#X")] {
        c.case(&format!("list and map members {tgt} {tgt2}"), true, || {
            let mut l = ListOrSet::new(sid(tgt));
            same("list member", (l.member().id().to_string(), l.member().target().to_string()), ("member".into(), tgt.into()))?;
            l.set_member(MemberShape::with_traits(ident("member"), sid(tgt2), traits_to(&traits(&[("t#t", None)]))));
            same("set_member", (l.member().target().to_string(), l.member().has_trait(&sid("t#t"))), (tgt2.into(), true))?;
            let mut m = Map::new(sid(tgt), sid(tgt2));
            let show = |m: &Map| format!("{}:{} {}:{}", m.key().id(), m.key().target(), m.value().id(), m.value().target());
            same("map", show(&m), format!("key:{tgt} value:{tgt2}"))?;
            m.set_key(MemberShape::new(ident("key"), sid("k#K")));
            same("set_key", show(&m), format!("key:k#K value:{tgt2}"))?;
            m.set_value(MemberShape::new(ident("value"), sid("v#V")));
            same("set_value", show(&m), "key:k#K value:v#V".to_string())?;
            let mut ms = m.key().clone();
            ms.set_target(sid(tgt2));
            ms.set_id(ident("other"));
            same("member setters", (ms.id().to_string(), ms.target().to_string()), ("other".into(), tgt2.into()))
        });
    }
}

// ---------------------------------------------------------------------------- traits as a map
fn trait_map(c: &mut Ctx, depth: usize) {
    type R = BTreeMap<String, Option<V>>;
    let ids = ["t#a", "t#b", "smithy.api#documentation", "smithy.api#required"];
    fn ops<T: HasTraits + 'static>(ids: &[&'static str]) -> Vec<OpDef<T, R>> {
        let mut o: Vec<OpDef<T, R>> = vec![];
        for id in ids {
            let id = *id;
            for v in [None, Some(s("x")), Some(V::Int(3))] {
                o.push(op(format!("apply {id} {v:?}"), move |t: &mut T, r: &mut R| {
                    let g = match &v {
                        None => t.apply(sid(id)),
                        Some(x) => t.apply_with_value(sid(id), Some(v_to(x))),
                    };
                    match r.get(id) {
                        None => {
                            r.insert(id.into(), v.clone());
                            same("apply accepted", g.is_ok(), true)
                        }
                        Some(old) => same("apply accepted", g.is_ok(), *old == v),
                    }
                }));
            }
            o.push(op(format!("remove {id}"), move |t: &mut T, r: &mut R| {
                t.remove_trait(&sid(id));
                r.remove(id);
                Ok(())
            }));
        }
        o.push(op("apply a member id", |t: &mut T, _: &mut R| same("accepted", t.apply(sid("t#a$m")).is_ok(), false)));
        o
    }
    fn check<T: HasTraits>(t: &T, r: &R) -> Result<(), String> {
        same("has_traits", t.has_traits(), !r.is_empty())?;
        for id in ["t#a", "t#b", "smithy.api#documentation", "smithy.api#required", "t#c"] {
            same(&format!("has_trait {id}"), t.has_trait(&sid(id)), r.contains_key(id))?;
            same(&format!("trait_named {id}"), t.trait_named(&sid(id)).map(|v| v.as_ref().map(v_from)), r.get(id).cloned())?;
        }
        same("has_documentation", t.has_documentation(), r.contains_key("smithy.api#documentation"))?;
        same("is_required", t.is_required(), r.contains_key("smithy.api#required"))?;
        same("traits", traits_from(t.traits()), r.clone())
    }
    explore(c, "traits of a shape", (TopLevelShape::new(sid("a#A"), ShapeKind::Simple(Simple::String)), R::new()), &ops(&ids), depth, check);
    explore(c, "traits of a member", (MemberShape::new(ident("m"), sid("a#A")), R::new()), &ops(&ids), depth, check);

    // convenience predicates: true exactly for their own trait of the Smithy prelude
    let preds: Vec<(&str, fn(&TopLevelShape) -> bool)> = vec![
        ("documentation", |t| t.has_documentation()),
        ("externalDocumentation", |t| t.has_external_documentation()),
        ("length", |t| t.has_length()),
        ("pattern", |t| t.has_pattern()),
        ("requiresLength", |t| t.has_required_length()),
        ("box", |t| t.is_boxed()),
        ("deprecated", |t| t.is_deprecated()),
        ("error", |t| t.is_error()),
        ("idempotent", |t| t.is_idempotent()),
        ("noReplace", |t| t.is_no_replace()),
        ("paginated", |t| t.is_paginated()),
        ("private", |t| t.is_private()),
        ("readonly", |t| t.is_readonly()),
        ("references", |t| t.is_references()),
        ("required", |t| t.is_required()),
        ("sensitive", |t| t.is_sensitive()),
        ("streaming", |t| t.is_streaming()),
        ("since", |t| t.is_since()),
        ("tags", |t| t.is_tagged()),
        ("title", |t| t.is_titled()),
        ("trait", |t| t.is_trait()),
        ("uniqueItems", |t| t.has_unique_items()),
        ("unstable", |t| t.is_unstable()),
    ];
    let names: Vec<&str> = preds.iter().map(|p| p.0).collect();
    for (n, f) in &preds {
        for (i, v) in super::fam::value_pool().into_iter().map(Some).chain([None, Some(obj(&[("message", s("m"))]))]).enumerate() {
            for other in &names {
                c.case(&format!("predicate {n} with {other} of value {i}"), true, || {
                    let mut t = TopLevelShape::new(sid("a#A"), ShapeKind::Simple(Simple::String));
                    t.apply_with_value(sid(&format!("smithy.api#{other}")), v.as_ref().map(v_to)).map_err(|e| e.to_string())?;
                    same("applied", f(&t), n == other)?;
                    for all in &names {
                        if all != other {
                            t.apply_with_value(sid(&format!("smithy.api#{all}")), v.as_ref().map(v_to)).map_err(|e| e.to_string())?;
                        }
                    }
                    same("with all", f(&t), true)?;
                    t.remove_trait(&sid(&format!("smithy.api#{n}")));
                    same("with all others", f(&t), false)
                });
            }
        }
    }
    for (n, f) in preds {
        for other in &names {
            c.case(&format!("predicate {n} with {other}"), true, || {
                let mut t = TopLevelShape::new(sid("a#A"), ShapeKind::Simple(Simple::String));
                same("nothing applied", f(&t), false)?;
                t.apply(sid(&format!("smithy.api#{other}"))).map_err(|e| e.to_string())?;
                same("applied", f(&t), n == *other)?;
                t.remove_trait(&sid(&format!("smithy.api#{other}")));
                t.apply(sid(&format!("other.ns#{other}"))).map_err(|e| e.to_string())?;
                same("same name in another namespace", f(&t), false)
            });
        }
    }
}

// ---------------------------------------------------------------------------- values
fn values(c: &mut Ctx) {
    for i in [i64::MIN, -129, -128, -1, 0, 1, 127, 128, 255, 32767, 32768, 65536, 2147483647, 2147483648, i64::MAX, i64::MIN + 1] {
        c.case(&format!("integer {i}"), true, || {
            same("from i64", Value::from(i), Value::Number(Number::Integer(i)))?;
            same("number from i64", Number::from(i), Number::Integer(i))?;
            if let Ok(x) = i8::try_from(i) {
                same("i8", (Value::from(x), Number::from(x)), (Value::Number(Number::Integer(i)), Number::Integer(i)))?;
            }
            if let Ok(x) = i16::try_from(i) {
                same("i16", (Value::from(x), Number::from(x)), (Value::Number(Number::Integer(i)), Number::Integer(i)))?;
            }
            if let Ok(x) = i32::try_from(i) {
                same("i32", (Value::from(x), Number::from(x)), (Value::Number(Number::Integer(i)), Number::Integer(i)))?;
            }
            same("display", Value::from(i).to_string(), i.to_string())?;
            same("as_number", Value::from(i).as_number().cloned(), Some(Number::Integer(i)))
        });
    }
    let thirds = [1.0 / 3.0, 0.1, 0.7, -1e-7, 16777217.0, f32::MAX as f64, f32::MIN_POSITIVE as f64, f64::MAX, 1e-310, f64::INFINITY, 9007199254740993.0];
    for f in [0.0, -0.0, 1.5, -2.25, 1e300, f64::MIN_POSITIVE, 1.0].into_iter().chain(thirds) {
        c.case(&format!("float {f:?}"), true, || {
            same("from f64", (Value::from(f), Number::from(f)), (Value::Number(Number::Float(f)), Number::Float(f)))?;
            same("from f32", (Value::from(f as f32), Number::from(f as f32)), (Value::Number(Number::Float(f as f32 as f64)), Number::Float(f as f32 as f64)))
        });
    }
    let pool = vec![
        V::None, V::Bool(true), V::Bool(false), V::Int(0), V::Int(-5), V::Float(F(0.5)), s(""), s("true"), s("0"), V::Arr(vec![]),
        V::Arr(vec![V::Int(1), V::None]), V::Obj(BTreeMap::new()), obj(&[("a", s("b"))]), obj(&[("a", V::Arr(vec![obj(&[("b", V::None)])]))]),
    ];
    for v in &pool {
        c.case(&format!("value {}", show_v(v)), true, || {
            let x = v_to(v);
            let k = match v {
                V::None => 0,
                V::Bool(_) => 1,
                V::Int(_) | V::Float(_) => 2,
                V::Str(_) => 3,
                V::Arr(_) => 4,
                V::Obj(_) => 5,
            };
            let is = [x.is_none(), x.is_boolean(), x.is_number(), x.is_string(), x.is_array(), x.is_object()];
            same("kind predicates", is.to_vec(), (0..6).map(|i| i == k).collect::<Vec<_>>())?;
            let as_ = [x.as_boolean().is_some(), x.as_number().is_some(), x.as_string().is_some(), x.as_array().is_some(), x.as_object().is_some()];
            same("downcasts", as_.to_vec(), (1..6).map(|i| i == k).collect::<Vec<_>>())?;
            match v {
                V::Bool(b) => same("bool", (x.as_boolean().copied(), Value::from(*b) == x), (Some(*b), true))?,
                V::Str(t) => same("string", (x.as_string().cloned(), Value::from(t.clone()) == x, Value::from(t.as_str()) == x), (Some(t.clone()), true, true))?,
                V::Arr(a) => {
                    let vs: Vec<Value> = a.iter().map(v_to).collect();
                    same("array", (x.as_array().cloned(), Value::from(vs.clone()) == x, Value::from(&vs[..]) == x), (Some(vs), true, true))?
                }
                V::Obj(_) => {
                    let m = x.as_object().unwrap().clone();
                    same("object", Value::from(m) == x, true)?
                }
                _ => {}
            }
            same("copy", v_from(&x.clone()), v.clone())?;
            for w in &pool {
                same(&format!("equality with {}", show_v(w)), v_to(w) == x, w == v)?;
            }
            Ok(())
        });
    }
    c.case("value of a shape id", true, || {
        let i: ShapeID = sid("a.b#C$d");
        same("from id", (Value::from(&i), Value::from(i.clone())), (Value::String("a.b#C$d".into()), Value::String("a.b#C$d".into())))
    });
    c.case("namespace of an id survives", true, || {
        let n: NamespaceID = NamespaceID::new_unchecked("a.b");
        let i: Identifier = Identifier::new_unchecked("C");
        same("made", n.make_shape(i).to_string(), "a.b#C".to_string())
    });
}

pub fn run(c: &mut Ctx) {
    c.level = "model_checking";
    c.rule = "breadth-first search over every history of the public mutators of a model, service, operation, resource, structure and trait holder, up to the depth bound, each step applied to the real object and to a plain map/sequence reference and every accessor compared; every two calls twenty times in turn, and 120 calls around the table with every stride; plus every (kind x kind) body replacement, kind-checked setter, trait predicate pair and value conversion".into();
    c.assumptions = vec!["two histories leading to equal reference states have equal futures; every accessor is compared on each transition to justify merging them".into()];
    let d = if c.thorough { 2 } else { 0 };
    model_shapes(c, 5 + d);
    model_metadata(c, 5 + d);
    structure(c, 5 + d);
    service(c, 4 + d);
    operation(c, 5 + d);
    resource(c, 4 + d);
    trait_map(c, 5 + d);
    checked_setters(c);
    values(c);
}
