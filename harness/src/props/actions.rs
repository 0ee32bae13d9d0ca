//! C21-C24: validators, linters, the action runners, and the model walk.
use super::fam::*;
use super::iofam::{models, neighbours, rich};
use crate::kit::bfs::same;
use crate::kit::gen::*;
use crate::kit::order::with_seed;
use crate::kit::run::Ctx;
use crate::kit::spec::*;
use atelier_core::action::lint::{run_linter_actions, NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{run_validation_actions, CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Action, ActionIssue, IssueLevel, Linter, Validator};
use atelier_core::error::ErrorKind;
use atelier_core::model::shapes::{AppliedTraits, ListOrSet, Map, Operation, Resource, Service, Simple, StructureOrUnion};
use atelier_core::model::values::Value;
use atelier_core::model::visitor::{walk_model, MemberVisitor, ModelVisitor};
use atelier_core::model::{Identifier, Model, ShapeID};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn lvl(l: &IssueLevel) -> &'static str {
    match l {
        IssueLevel::Info => "info",
        IssueLevel::Warning => "warning",
        IssueLevel::Error => "error",
    }
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

// ------------------------------------------------------------------------------------ C21
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Data,
    Op,
    Res,
}

fn refs(b: &Body) -> Vec<(Want, String)> {
    let mut v: Vec<(Want, String)> = b.members().iter().map(|m| (Want::Data, m.target.clone())).collect();
    match b {
        Body::Service(s) => {
            v.extend(s.operations.iter().map(|x| (Want::Op, x.clone())));
            v.extend(s.resources.iter().map(|x| (Want::Res, x.clone())));
        }
        Body::Operation(o) => {
            v.extend(o.input.iter().chain(o.output.iter()).chain(o.errors.iter()).map(|x| (Want::Data, x.clone())));
        }
        Body::Resource(r) => {
            v.extend(r.identifiers.values().map(|x| (Want::Data, x.clone())));
            v.extend(r.life.iter().flatten().chain(&r.operations).chain(&r.collection_operations).map(|x| (Want::Op, x.clone())));
            v.extend(r.resources.iter().map(|x| (Want::Res, x.clone())));
        }
        _ => {}
    }
    v
}

/// The models all formats are tried on, and rich ones with one detail changed.
fn shared(c: &Ctx) -> Vec<(String, Spec)> {
    let mut out = models(c.thorough);
    for (k, base) in rich().iter().enumerate() {
        out.extend(neighbours(base).into_iter().map(|(w, s)| (format!("rich {k}: {w}"), s)));
    }
    out
}

fn expected_type_issues(sp: &Spec) -> Vec<(String, String)> {
    let mut out = vec![];
    for (id, s) in &sp.shapes {
        if matches!(s.body, Body::Simple(_)) && s.traits.is_empty() {
            out.push(("info".to_string(), id.clone()));
        }
        for (w, t) in refs(&s.body) {
            match sp.shapes.get(&t) {
                Some(tg) => {
                    let ok = match w {
                        Want::Data => !matches!(tg.body, Body::Service(_) | Body::Operation(_) | Body::Resource(_)),
                        Want::Op => matches!(tg.body, Body::Operation(_)),
                        Want::Res => matches!(tg.body, Body::Resource(_)),
                    };
                    if !ok {
                        out.push(("error".into(), id.clone()));
                    }
                }
                None if !t.starts_with("smithy.api#") => out.push(("warning".into(), id.clone())),
                None => {}
            }
        }
    }
    sorted(out)
}

/// Every position a reference can stand in; the closure puts targets there.
fn positions() -> Vec<(&'static str, fn(&str) -> Body)> {
    fn res(f: impl Fn(&mut Res)) -> Body {
        let mut r = Res::default();
        f(&mut r);
        Body::Resource(r)
    }
    vec![
        ("list member", |t| Body::List(mem("member", t))),
        ("set member", |t| Body::Set(mem("member", t))),
        ("map key", |t| Body::Map(mem("key", t), mem("value", "smithy.api#String"))),
        ("map value", |t| Body::Map(mem("key", "smithy.api#String"), mem("value", t))),
        ("structure member", |t| Body::Structure(st(&[mem("a", "smithy.api#String"), mem("b", t)]))),
        ("union member", |t| Body::Union(st(&[mem("a", t), mem("b", "smithy.api#String")]))),
        ("service operation", |t| Body::Service(Svc { version: "1".into(), operations: strs(&["a#FOp", t]), ..Default::default() })),
        ("service resource", |t| Body::Service(Svc { version: "1".into(), resources: strs(&[t, "a#FRes"]), ..Default::default() })),
        ("operation input", |t| op3(Some(t), None, &[])),
        ("operation output", |t| op3(None, Some(t), &[])),
        ("operation error", |t| op3(None, None, &["a#FStruct", t])),
        ("resource identifier", |t| res(|r| r.identifiers = smap(&[("a", "smithy.api#String"), ("b", t)]))),
        ("resource create", |t| res(|r| r.life[0] = Some(t.into()))),
        ("resource put", |t| res(|r| r.life[1] = Some(t.into()))),
        ("resource read", |t| res(|r| r.life[2] = Some(t.into()))),
        ("resource update", |t| res(|r| r.life[3] = Some(t.into()))),
        ("resource delete", |t| res(|r| r.life[4] = Some(t.into()))),
        ("resource list", |t| res(|r| r.life[5] = Some(t.into()))),
        ("resource operation", |t| res(|r| r.operations = strs(&[t]))),
        ("resource collection operation", |t| res(|r| r.collection_operations = strs(&["a#FOp", t]))),
        ("resource resource", |t| res(|r| r.resources = strs(&[t]))),
    ]
}

pub fn type_refs(c: &mut Ctx) {
    c.rule = "every reference position (21) crossed with every target: each of the 21 resolved kinds, a shape in another namespace, an absent shape and a prelude name; every pair of positions crossed with 6x6 targets; every pair of places of one shape with the same and with different wrong targets, the shape itself among them; every triple with the same; every subset of resource slots wrongly filled; simple shapes with and without traits; up to 100 references of one shape with one wrong; the shared families of models and every one-detail change of rich ones; non-trivial = the expected issue list is not empty".into();
    fn check(sp: &Spec) -> Result<(), String> {
        let m = sp.build();
        // unresolved shapes: one error each, naming the shape
        let mut u = NoUnresolvedReferences::default();
        u.validate(&m).map_err(|e| e.to_string())?;
        let mut left: Vec<String> = sp.shapes.iter().filter(|(_, x)| x.body == Body::Unresolved).map(|(k, _)| k.clone()).collect();
        for i in u.issues() {
            let k = left.iter().position(|id| i.message().split(|ch: char| !(ch.is_alphanumeric() || "_.#$".contains(ch))).any(|w| w == id));
            match k {
                Some(k) if *i.level() == IssueLevel::Error => {
                    left.remove(k);
                }
                _ => return Err(format!("unresolved references: unexpected {} issue {:?}", lvl(i.level()), i.message())),
            }
        }
        same("unresolved shapes without an issue", left, vec![])?;
        let mut v = CorrectTypeReferences::default();
        v.validate(&m).map_err(|e| e.to_string())?;
        let got = sorted(v.issues().iter().map(|i| (lvl(i.level()).to_string(), i.locus().as_ref().map(|x| x.to_string()).unwrap_or_default())).collect());
        same("issues (level, shape)", got, expected_type_issues(sp))
    }
    let base = || {
        let mut sp = Spec::default();
        sp.shapes.insert("a#FOp".into(), Shape { traits: Traits::new(), body: op3(None, None, &[]) });
        sp.shapes.insert("a#FRes".into(), Shape { traits: Traits::new(), body: Body::Resource(Res::default()) });
        sp.shapes.insert("a#FStruct".into(), Shape { traits: traits(&[("smithy.api#error", Some(s("client")))]), body: Body::Structure(st(&[])) });
        sp
    };
    // possible targets
    let mut targets: Vec<(String, Option<Shape>)> = vec![];
    for b in plain_bodies() {
        if b == Body::Unresolved {
            continue;
        }
        let sh = Shape { traits: traits(&[("t#c", None)]), body: b.clone() };
        targets.push((format!("a#X{}", b.kind()), Some(sh.clone())));
        if !matches!(b, Body::Simple(_)) {
            targets.push((format!("b.c#X{}", b.kind()), Some(sh)));
        }
    }
    // a shape of the prelude namespace that the model defines itself is a shape like any other
    targets.push(("smithy.api#Odd".into(), Some(Shape { traits: Traits::new(), body: op3(None, None, &[]) })));
    // a placeholder is in the model, but is neither operation nor resource
    for id in ["a#Open", "b.c#Open", "smithy.x#Open", "smithy.api#Open", "aws.api#Open"] {
        targets.push((id.into(), Some(Shape { traits: Traits::new(), body: Body::Unresolved })));
        targets.push((format!("{id}WithTrait"), Some(Shape { traits: traits(&[("t#c", None)]), body: Body::Unresolved })));
    }
    targets.push(("a#Absent".into(), None));
    targets.push(("b#FOp".into(), None));
    targets.push(("smithy.api#String".into(), None));
    targets.push(("smithy.apix#String".into(), None));
    let pos = positions();
    let mut run = |c: &mut Ctx, name: String, parts: Vec<(&str, Body)>, tg: Vec<&(String, Option<Shape>)>| {
        let mut sp = base();
        for t in tg {
            if let Some(s) = &t.1 {
                let mut s = s.clone();
                // the default bodies refer to a#Op and so on: make these targets self-contained
                match &mut s.body {
                    Body::Service(x) => x.operations = strs(&["a#FOp"]),
                    Body::Operation(x) => x.input = Some("a#FStruct".into()),
                    Body::Resource(x) => x.identifiers = smap(&[("id", "smithy.api#String")]),
                    _ => {}
                }
                sp.shapes.insert(t.0.clone(), s);
            }
        }
        for (id, b) in parts {
            sp.shapes.insert(id.into(), Shape { traits: Traits::new(), body: b });
        }
        let n = !expected_type_issues(&sp).is_empty();
        c.case_o(&name, n, || check(&sp).map(|_| if n { "issues" } else { "clean" }));
    };
    for (pn, p) in &pos {
        for t in &targets {
            run(c, format!("{pn} -> {}", t.0), vec![("a#Owner", p(&t.0))], vec![t]);
            // traits of the shape and of its members do not matter
            for tr in [traits(&[("smithy.api#required", None)]), traits(&[("t#c", Some(s("x"))), ("smithy.api#idRef", None), ("smithy.api#private", None)])] {
                let mut b = p(&t.0);
                if b.members().is_empty() {
                    continue;
                }
                for m in b.members_mut() {
                    m.traits = tr.clone();
                }
                run(c, format!("{pn} with {} -> {}", show_traits(&tr), t.0), vec![("a#Owner", b)], vec![t]);
            }
        }
    }
    let few: Vec<&(String, Option<Shape>)> = targets
        .iter()
        .filter(|t| ["a#Xstructure", "a#Xoperation", "a#Xresource", "a#Xservice", "a#Absent", "smithy.api#String"].contains(&t.0.as_str()))
        .collect();
    for (pn, p) in &pos {
        for (qn, q) in &pos {
            for t in &few {
                for u in &few {
                    run(c, format!("{pn} -> {} with {qn} -> {}", t.0, u.0), vec![("a#Owner", p(&t.0)), ("b.c#Owner", q(&u.0))], vec![t, u]);
                }
            }
        }
    }
    // every pair (triple, thorough) of places of one shape, with the same and with different targets,
    // itself among them
    for (kind, body, ps) in places() {
        let tg = ["a#Xstructure", "a#Xoperation", "a#Xresource", "a#Absent", "a#Owner", "smithy.api#Nothing"];
        let of = |t: &str| targets.iter().filter(|x| x.0 == t).collect::<Vec<_>>();
        for (i, (pn, f)) in ps.iter().enumerate() {
            for (j, (qn, g)) in ps.iter().enumerate().skip(i) {
                for t in tg {
                    for u in tg {
                        if i == j && t != u {
                            continue;
                        }
                        let mut b = body.clone();
                        f(&mut b, t);
                        g(&mut b, u);
                        run(c, format!("one {kind}: {pn} -> {t}, {qn} -> {u}"), vec![("a#Owner", b.clone())], [of(t), of(u)].concat());
                        if t == u && i != j {
                            for (rn, h) in ps.iter().skip(j + 1) {
                                let mut b = b.clone();
                                h(&mut b, t);
                                run(c, format!("one {kind}: {pn}, {qn} and {rn} -> {t}"), vec![("a#Owner", b)], of(t));
                            }
                        }
                    }
                }
            }
        }
    }
    // several references of one shape at once
    for bits in 0..64u32 {
        let mut r = Res::default();
        for k in 0..6 {
            r.life[k] = Some(if bits & (1 << k) != 0 { "a#FStruct".into() } else { "a#FOp".to_string() });
        }
        run(c, format!("resource with wrong slots {bits:06b}"), vec![("a#Owner", Body::Resource(r))], vec![]);
    }
    for i in ["a#FOp", "a#FStruct", "a#None"] {
        for o in ["a#FOp", "a#FStruct", "a#None"] {
            for e in ["a#FOp", "a#FStruct", "a#None"] {
                for f in ["a#FRes", "a#FStruct", "a#None"] {
                    run(c, format!("operation {i} {o} {e} {f}"), vec![("a#Owner", op3(Some(i), Some(o), &[e, f]))], vec![]);
                    run(
                        c,
                        format!("structure {i} {o} {e} {f}"),
                        vec![("a#Owner", Body::Structure(st(&[mem("a", i), mem("b", o), mem("c", e), mem("d", f)])))],
                        vec![],
                    );
                    run(
                        c,
                        format!("service {i} {o} {e} {f}"),
                        vec![("a#Owner", Body::Service(Svc { version: "1".into(), operations: strs(&[i, o]), resources: strs(&[e, f]), ..Default::default() }))],
                        vec![],
                    );
                }
            }
        }
    }
    for k in SIMPLE {
        for t in [traits(&[]), traits(&[("t#c", None)]), traits(&[("smithy.api#documentation", Some(s("x")))])] {
            let mut sp = base();
            let name = format!("simple {k} with {}", show_traits(&t));
            sp.shapes.insert("a#Simple".into(), Shape { traits: t, body: Body::Simple(k.into()) });
            c.case(&name, true, || check(&sp));
        }
    }
    for (name, sp) in shared(c) {
        let n = !expected_type_issues(&sp).is_empty();
        c.case_o(&name, n, || check(&sp).map(|_| if n { "issues" } else { "clean" }));
    }
    // many references of one shape, one of them wrong
    for n in [5usize, 12, 33, 100] {
        for k in [0, 1, n / 2, n - 1, n] {
            for wrong in ["a#FOp", "a#FRes", "a#FStruct", "a#Gone", "smithy.api#Gone"] {
                let right = |r: &str| -> Vec<String> { (0..n).map(|i| if i == k { wrong.to_string() } else { r.to_string() }).collect() };
                let op = right("a#FOp");
                let re = right("a#FRes");
                let da = right("a#FStruct");
                let ms: Vec<Mem> = da.iter().enumerate().map(|(i, t)| mem(&format!("m{i}"), t)).collect();
                let bodies = [
                    Body::Structure(st(&ms)),
                    Body::Union(st(&ms)),
                    Body::Service(Svc { version: "1".into(), operations: op.clone(), resources: re.clone(), ..Default::default() }),
                    Body::Operation(Op { errors: da.clone(), ..Default::default() }),
                    Body::Resource(Res { identifiers: da.iter().enumerate().map(|(i, t)| (format!("i{i}"), t.clone())).collect(), operations: op.clone(), collection_operations: op, resources: re, ..Default::default() }),
                ];
                for b in bodies {
                    let mut sp = base();
                    let kind = b.kind().to_string();
                    sp = sp.with("a#Many", b);
                    c.case(&format!("{kind} of {n}, {wrong} at {k}"), true, || check(&sp));
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------ C22
/// The words of a name: split at underscores, before a capital that follows a small letter or a
/// digit after small letters, and before the last capital of a run of capitals when a small letter follows.
pub fn words(n: &str) -> Vec<String> {
    let mut out = vec![];
    for part in n.split('_') {
        let cs: Vec<char> = part.chars().collect();
        let mut cur = String::new();
        let mut prev: Option<char> = None; // last letter seen in this word (digits keep it)
        for i in 0..cs.len() {
            let ch = cs[i];
            if ch.is_ascii_uppercase() && !cur.is_empty() {
                let after_small = prev.map(|p| p.is_ascii_lowercase()).unwrap_or(false);
                let starts_next = prev.map(|p| p.is_ascii_uppercase()).unwrap_or(false) && cs.get(i + 1).map(|x| x.is_ascii_lowercase()).unwrap_or(false);
                if after_small || starts_next {
                    out.push(std::mem::take(&mut cur));
                    prev = None;
                }
            }
            cur.push(ch);
            if ch.is_ascii_alphabetic() {
                prev = Some(ch);
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
    }
    out
}
fn cap(w: &str) -> String {
    let l = w.to_lowercase();
    let mut c = l.chars();
    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
}
fn upper_camel(n: &str) -> String {
    words(n).iter().map(|w| cap(w)).collect()
}
fn lower_camel(n: &str) -> String {
    words(n).iter().enumerate().map(|(i, w)| if i == 0 { w.to_lowercase() } else { cap(w) }).collect()
}
fn local(id: &str) -> &str {
    let r = id.split('#').nth(1).unwrap();
    r.split('$').next().unwrap()
}
const UNWELCOME: [&str; 5] = ["blacklist", "kill", "master", "slave", "whitelist"];

/// (locus, corrected name)
fn naming_issues(sp: &Spec) -> Vec<(String, String)> {
    let mut out = vec![];
    let shape = |id: &str, out: &mut Vec<(String, String)>| {
        if upper_camel(local(id)) != local(id) {
            out.push((id.to_string(), upper_camel(local(id))));
        }
    };
    let tr = |id: &str, out: &mut Vec<(String, String)>| {
        if lower_camel(local(id)) != local(id) {
            out.push((id.to_string(), lower_camel(local(id))));
        }
    };
    for (id, s) in &sp.shapes {
        if s.traits.contains_key("smithy.api#trait") {
            tr(id, &mut out);
        } else {
            shape(id, &mut out);
        }
        for t in s.traits.keys() {
            tr(t, &mut out);
        }
        if matches!(s.body, Body::Structure(_) | Body::Union(_)) {
            for m in s.body.members() {
                if lower_camel(&m.name) != m.name {
                    out.push((id.clone(), lower_camel(&m.name)));
                }
                shape(&m.target, &mut out);
                for t in m.traits.keys() {
                    tr(t, &mut out);
                }
            }
        }
    }
    sorted(out)
}
fn bad_words(n: &str) -> Vec<String> {
    words(n).iter().map(|w| w.to_lowercase()).filter(|w| UNWELCOME.contains(&w.as_str())).collect()
}
fn id_parts(id: &str) -> Vec<String> {
    id.split(|c| c == '.' || c == '#' || c == '$').map(|s| s.to_string()).collect()
}
/// every distinct name a linter of terms looks at
fn names_used(sp: &Spec) -> BTreeSet<String> {
    let mut out: BTreeSet<String> = BTreeSet::new();
    for (id, s) in &sp.shapes {
        out.extend(id_parts(id));
        out.extend(s.traits.keys().flat_map(|t| id_parts(t)));
        if matches!(s.body, Body::Structure(_) | Body::Union(_)) {
            for m in s.body.members() {
                out.insert(m.name.clone());
                out.extend(id_parts(&m.target));
                out.extend(m.traits.keys().flat_map(|t| id_parts(t)));
            }
        }
    }
    out
}
/// names a linter of terms looks at: (name, ids it may be reported at)
fn term_places(sp: &Spec) -> BTreeMap<String, BTreeSet<String>> {
    let mut out: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut add = |name: &str, at: &str| {
        for w in bad_words(name) {
            out.entry(w).or_default().insert(at.to_string());
        }
    };
    let mut id = |i: &str, add: &mut dyn FnMut(&str, &str)| {
        for p in id_parts(i) {
            add(&p, i);
        }
    };
    for (sid_, s) in &sp.shapes {
        id(sid_, &mut add);
        for t in s.traits.keys() {
            id(t, &mut add);
        }
        if matches!(s.body, Body::Structure(_) | Body::Union(_)) {
            for m in s.body.members() {
                add(&m.name, sid_);
                id(&m.target, &mut add);
                for t in m.traits.keys() {
                    id(t, &mut add);
                }
            }
        }
    }
    out
}

fn lint_check(m: &Model, sp: &Spec, naming: &mut NamingConventions, terms: &mut UnwelcomeTerms) -> Result<(), String> {
    naming.issues_mut().clear();
    terms.issues_mut().clear();
    naming.check(m).map_err(|e| e.to_string())?;
    let want = naming_issues(sp);
    let got: Vec<String> = sorted(naming.issues().iter().map(|i| i.locus().as_ref().map(|l| l.to_string()).unwrap_or_default()).collect());
    same("naming issues (places)", got, want.iter().map(|w| w.0.clone()).collect::<Vec<_>>())?;
    // each issue suggests the corrected name
    let mut left: Vec<&ActionIssue> = naming.issues().iter().collect();
    for (at, name) in &want {
        let k = left.iter().position(|i| {
            i.locus().as_ref().map(|l| l.to_string() == *at).unwrap_or(false) && i.message().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == name)
        });
        match k {
            Some(k) => {
                left.remove(k);
            }
            None => return Err(format!("no naming issue at {at} suggesting {name:?}; issues: {left:?}")),
        }
    }
    terms.check(m).map_err(|e| e.to_string())?;
    let places = term_places(sp);
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for i in terms.issues() {
        let w = UNWELCOME
            .iter()
            .find(|w| i.message().split(|c: char| !c.is_alphanumeric()).any(|x| x.eq_ignore_ascii_case(w)))
            .ok_or_else(|| format!("issue names no listed term: {}", i.message()))?;
        seen.insert(w.to_string());
        let at = i.locus().as_ref().map(|l| l.to_string()).unwrap_or_default();
        if !places.get(*w).map(|p| p.contains(&at)).unwrap_or(false) {
            return Err(format!("term {w} reported at {at:?}, where it does not occur (it occurs at {:?})", places.get(*w)));
        }
    }
    same("terms reported", seen, places.keys().cloned().collect())?;
    let mut want: Vec<String> = names_used(sp).iter().flat_map(|n| bad_words(n)).collect();
    want.sort();
    let mut got: Vec<String> = terms
        .issues()
        .iter()
        .filter_map(|i| UNWELCOME.iter().find(|w| i.message().split(|c: char| !c.is_alphanumeric()).any(|x| x.eq_ignore_ascii_case(w))))
        .map(|w| w.to_string())
        .collect();
    got.sort();
    same("terms reported, once for every distinct name with the term", got, want)
}

/// A model with `name` in one position.
fn named_positions() -> Vec<(&'static str, fn(&str) -> Spec)> {
    fn one(id: &str, t: Traits, b: Body) -> Spec {
        Spec { shapes: BTreeMap::from([(id.to_string(), Shape { traits: t, body: b })]), ..Default::default() }
    }
    fn with_member(m: Mem) -> Body {
        Body::Structure(st(&[m]))
    }
    vec![
        ("simple shape", |n| one(&format!("a.b#{n}"), Traits::new(), Body::Simple("string".into()))),
        ("list shape", |n| one(&format!("a.b#{n}"), Traits::new(), Body::List(mem("member", "a.b#Good")))),
        ("structure shape", |n| one(&format!("a.b#{n}"), Traits::new(), Body::Structure(st(&[])))),
        ("service shape", |n| one(&format!("a.b#{n}"), Traits::new(), Body::Service(svc("1")))),
        ("operation shape", |n| one(&format!("a.b#{n}"), Traits::new(), op3(None, None, &[]))),
        ("resource shape", |n| one(&format!("a.b#{n}"), Traits::new(), Body::Resource(Res::default()))),
        ("unresolved shape", |n| one(&format!("a.b#{n}"), Traits::new(), Body::Unresolved)),
        ("trait definition", |n| one(&format!("a.b#{n}"), traits(&[("smithy.api#trait", None)]), Body::Structure(st(&[])))),
        ("simple trait definition", |n| one(&format!("a.b#{n}"), traits(&[("smithy.api#trait", Some(obj(&[])))]), Body::Simple("string".into()))),
        ("other namespace's trait", |n| one(&format!("a.b#{n}"), traits(&[("other#trait", None)]), Body::Simple("string".into()))),
        ("applied trait", |n| one("a.b#Good", traits(&[(&format!("c.d#{n}"), None)]), Body::Simple("string".into()))),
        ("applied trait on union", |n| one("a.b#Good", traits(&[(&format!("c.d#{n}"), Some(s("v")))]), Body::Union(st(&[])))),
        ("structure member", |n| one("a.b#Good", Traits::new(), with_member(mem(n, "a.b#Good")))),
        ("union member", |n| one("a.b#Good", Traits::new(), Body::Union(st(&[mem(n, "a.b#Good"), mem("ok", "a.b#Good")])))),
        ("member target", |n| one("a.b#Good", Traits::new(), with_member(mem("ok", &format!("c.d#{n}"))))),
        ("union member target", |n| one("a.b#Good", Traits::new(), Body::Union(st(&[mem("ok", &format!("c.d#{n}"))])))),
        ("member trait", |n| {
            let mut m = mem("ok", "a.b#Good");
            m.traits = traits(&[(&format!("c.d#{n}"), None)]);
            one("a.b#Good", Traits::new(), with_member(m))
        }),
        ("applied prelude trait", |n| one("a.b#Good", traits(&[(&format!("smithy.api#{n}"), Some(V::Int(1)))]), Body::Simple("string".into()))),
        ("prelude member trait", |n| {
            let mut m = mem("ok", "smithy.api#String");
            m.traits = traits(&[(&format!("smithy.api#{n}"), None)]);
            one("a.b#Good", Traits::new(), Body::Union(st(&[m])))
        }),
        ("prelude member target", |n| one("a.b#Good", Traits::new(), with_member(mem("ok", &format!("smithy.api#{n}"))))),
        ("shape in the prelude", |n| one(&format!("smithy.api#{n}"), Traits::new(), Body::Simple("string".into()))),
        ("trait definition in the prelude", |n| one(&format!("smithy.api#{n}"), traits(&[("smithy.api#trait", None)]), Body::Structure(st(&[])))),
        ("member target is the shape", |n| one(&format!("a.b#{n}"), Traits::new(), with_member(mem("ok", &format!("a.b#{n}"))))),
        ("one name everywhere", |n| {
            let id = format!("a.b#{n}");
            let mut m = mem(n, &id);
            m.traits = traits(&[(&id, None)]);
            one(&id, traits(&[(&id, None)]), with_member(m))
        }),
        ("one of many member traits", |n| {
            let mut m = mem("ok", "a.b#Good");
            m.traits = traits(&[("c.d#a", None), ("c.d#z", None), ("smithy.api#required", None), ("smithy.api#documentation", Some(s("x"))), ("smithy.api#private", None), (&format!("c.d#{n}"), None)]);
            one("a.b#Good", Traits::new(), Body::Union(st(&[mem("first", "a.b#Good"), m])))
        }),
        ("one of many traits", |n| {
            one("a.b#Good", traits(&[("c.d#a", None), ("c.d#z", None), ("smithy.api#sensitive", None), ("smithy.api#documentation", Some(s("x"))), ("smithy.api#private", None), (&format!("c.d#{n}"), None)]), Body::Simple("string".into()))
        }),
        ("private shape", |n| one(&format!("a.b#{n}"), traits(&[("smithy.api#private", None), ("smithy.api#deprecated", None)]), Body::Structure(st(&[])))),
        ("private trait definition", |n| one(&format!("a.b#{n}"), traits(&[("smithy.api#private", None), ("smithy.api#trait", None)]), Body::Structure(st(&[])))),
        ("unresolved shape with a trait", |n| one(&format!("a.b#{n}"), traits(&[("smithy.api#private", None)]), Body::Unresolved)),
        ("last of many members", |n| {
            let mut ms: Vec<Mem> = (0..12).map(|i| mem(&format!("m{i}"), "a.b#Good")).collect();
            ms.push(mem(n, &format!("c.d#{n}")));
            one("a.b#Good", Traits::new(), Body::Structure(st(&ms)))
        }),
        ("deep namespace", |n| one(&format!("a.b.c.d.e.f.{n}#Good"), Traits::new(), Body::Simple("string".into()))),
        ("namespace", |n| one(&format!("a.{n}.b#Good"), Traits::new(), Body::Simple("string".into()))),
        ("trait namespace", |n| one("a.b#Good", traits(&[(&format!("{n}#ok"), None)]), Body::Simple("string".into()))),
        ("target namespace", |n| one("a.b#Good", Traits::new(), with_member(mem("ok", &format!("c.{n}#Good"))))),
    ]
}

pub fn lint(c: &mut Ctx) {
    c.rule = "every name of up to 4 (5 thorough) letter-case pieces over {small, capital, capitals, digit, underscore}, every unwelcome term and near miss in 12 spellings, at each of 34 positions; every ordered pair of 204 models through the same linters; every model under three hash seeds; the shared families of models and every one-detail change of rich ones; non-trivial = an issue is expected".into();
    let mut names: BTreeSet<String> = BTreeSet::new();
    for n in strings(&["ab", "X", "Cd", "EF", "9", "_"], if c.thorough { 5 } else { 4 }) {
        if super::ids::ref_identifier(&n) {
            names.insert(n);
        }
    }
    for t in UNWELCOME.iter().chain(["list", "skill", "blacklisted", "masters", "black", "Kil", "slavery", "whitelists"].iter()) {
        for f in [
            t.to_string(),
            cap(t),
            t.to_uppercase(),
            format!("my{}", cap(t)),
            format!("my_{t}"),
            format!("{t}_x"),
            format!("{}Thing", cap(t)),
            format!("x{t}"),
            format!("{t}2"),
            format!("My{}Thing", cap(t)),
            format!("HTTP{}", cap(t)),
            format!("_{t}"),
        ] {
            names.insert(f);
        }
    }
    names.insert("MasterSlaveKill".into());
    names.insert("blackList".into());
    let pos = named_positions();
    for n in &names {
        for (pn, f) in &pos {
            let sp = f(n);
            let nt = !naming_issues(&sp).is_empty() || !term_places(&sp).is_empty();
            c.case_o(&format!("{pn} {n}"), nt, || {
                lint_check(&sp.build(), &sp, &mut NamingConventions::default(), &mut UnwelcomeTerms::default()).map(|_| if nt { "issues" } else { "clean" })
            });
        }
    }
    // histories: one linter instance over several models; combined models; hash orders
    let few = ["Good", "bad_name", "killMaster", "WhitelistEntry", "whitelistEntry", "KILL"];
    let mut specs: Vec<(String, Spec)> = vec![];
    for n in few {
        for (pn, f) in &pos {
            specs.push((format!("{pn} {n}"), f(n)));
        }
    }
    for (i, (an, a)) in specs.iter().enumerate() {
        for (j, (bn, b)) in specs.iter().enumerate() {
            let name = format!("{an} then {bn}");
            c.case(&name, i != j, || {
                let (mut nl, mut tl) = (NamingConventions::default(), UnwelcomeTerms::default());
                lint_check(&a.build(), a, &mut nl, &mut tl)?;
                lint_check(&b.build(), b, &mut nl, &mut tl).map_err(|e| format!("second model: {e}"))?;
                lint_check(&a.build(), a, &mut nl, &mut tl).map_err(|e| format!("first model again: {e}"))
            });
            if i < j {
                let mut both = a.clone();
                for (k, v) in &b.shapes {
                    both.shapes.insert(if both.shapes.keys().any(|x| x.eq_ignore_ascii_case(k)) { format!("z.{k}") } else { k.clone() }, v.clone());
                }
                c.case(&format!("{an} with {bn}"), true, || {
                    for seed in [1, 2, 3] {
                        with_seed(seed, || lint_check(&both.build(), &both, &mut NamingConventions::default(), &mut UnwelcomeTerms::default()))?;
                    }
                    Ok(())
                });
            }
        }
    }
    for (name, sp) in shared(c) {
        let nt = !naming_issues(&sp).is_empty() || !term_places(&sp).is_empty();
        c.case_o(&name, nt, || lint_check(&sp.build(), &sp, &mut NamingConventions::default(), &mut UnwelcomeTerms::default()).map(|_| if nt { "issues" } else { "clean" }));
    }
}

// ------------------------------------------------------------------------------------ C23
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Quiet,
    Info,
    Warning,
    Error,
    ErrorThenInfo,
    Fails,
}
const ACTS: [Act; 6] = [Act::Quiet, Act::Info, Act::Warning, Act::Error, Act::ErrorThenInfo, Act::Fails];

#[derive(Debug)]
struct Probe {
    act: Act,
    index: usize,
    log: Rc<RefCell<Vec<usize>>>,
    issues: Vec<ActionIssue>,
}
impl Action for Probe {
    fn label(&self) -> &'static str {
        "probe"
    }
    fn issues(&self) -> &Vec<ActionIssue> {
        &self.issues
    }
    fn issues_mut(&mut self) -> &mut Vec<ActionIssue> {
        &mut self.issues
    }
}
fn made(act: Act, i: usize) -> Vec<ActionIssue> {
    let m = |k: &str| format!("{k} {i}");
    match act {
        Act::Quiet | Act::Fails => vec![],
        Act::Info => vec![ActionIssue::info("probe", &m("info"))],
        Act::Warning => vec![ActionIssue::warning_at("probe", &m("warning"), sid("a#A"))],
        Act::Error => vec![ActionIssue::error_at("probe", &m("error"), sid("a#A$m"))],
        Act::ErrorThenInfo => vec![ActionIssue::error("probe", &m("error")), ActionIssue::info("probe", &m("info"))],
    }
}
impl Probe {
    fn go(&mut self) -> atelier_core::error::Result<()> {
        self.log.borrow_mut().push(self.index);
        self.issues.extend(made(self.act, self.index));
        if self.act == Act::Fails {
            Err(ErrorKind::UnknownShape("probe".into()).into())
        } else {
            Ok(())
        }
    }
}
impl Linter for Probe {
    fn check(&mut self, _: &Model) -> atelier_core::error::Result<()> {
        self.go()
    }
}
impl Validator for Probe {
    fn validate(&mut self, _: &Model) -> atelier_core::error::Result<()> {
        self.go()
    }
}
fn show_issues(v: &[ActionIssue]) -> Vec<String> {
    v.iter().map(|i| format!("{} {} {:?} {}", i.reporter(), lvl(i.level()), i.locus().as_ref().map(|l| l.to_string()), i.message())).collect()
}

pub fn runner(c: &mut Ctx) {
    c.level = "model_checking";
    c.rule = "every sequence of up to four (five thorough) actions over quiet, info, warning, error, error-then-info and failing ones, as linters and as validators, with and without fail-fast, each list run twice; lists of up to 257 actions and actions of up to 257 issues, equal or not, with one that differs wherever it stands; the standard sets on every 7th (thorough: every) model of the shared families; state = actions run and issues collected, transition = one action; non-trivial = at least two actions".into();
    let n = if c.thorough { 5 } else { 4 };
    let mut seqs: Vec<Vec<Act>> = vec![vec![]];
    let mut all = seqs.clone();
    for _ in 0..n {
        seqs = seqs.iter().flat_map(|q| ACTS.iter().map(move |a| [q.clone(), vec![*a]].concat())).collect();
        all.extend(seqs.iter().cloned());
    }
    let mut states = BTreeSet::new();
    for q in &all {
        for ff in [false, true] {
            for kind in ["linters", "validators"] {
                let name = format!("{kind} {q:?} fail_fast={ff}");
                if c.mine(&name) {
                    c.transitions += 2 * q.len() as u64;
                    c.traces += 1;
                }
                let stt = &mut states;
                c.case_o(&name, q.len() > 1, || {
                    let m = Model::default();
                    let log = Rc::new(RefCell::new(vec![]));
                    let mk = |i: usize, a: Act| Probe { act: a, index: i, log: log.clone(), issues: vec![] };
                    let mut ls: Vec<Box<dyn Linter>> = vec![];
                    let mut vs: Vec<Box<dyn Validator>> = vec![];
                    for (i, a) in q.iter().enumerate() {
                        ls.push(Box::new(mk(i, *a)));
                        vs.push(Box::new(mk(i, *a)));
                    }
                    // reference
                    let (mut ran, mut want, mut failed) = (vec![], vec![], false);
                    for (i, a) in q.iter().enumerate() {
                        ran.push(i);
                        if *a == Act::Fails {
                            failed = true;
                            break;
                        }
                        want.extend(made(*a, i));
                        if ff && matches!(a, Act::Error | Act::ErrorThenInfo) {
                            break;
                        }
                    }
                    stt.insert(format!("{ran:?} {}", show_issues(&want).join("|")));
                    for round in 0..2 {
                        log.borrow_mut().clear();
                        let got = if kind == "linters" { run_linter_actions(&mut ls, &m, ff) } else { run_validation_actions(&mut vs, &m, ff) };
                        same(&format!("round {round}: actions run"), log.borrow().clone(), ran.clone())?;
                        same(&format!("round {round}: fails"), got.is_err(), failed)?;
                        if let Ok(g) = got {
                            same(&format!("round {round}: issues"), show_issues(&g), show_issues(&want))?;
                        } else {
                            break;
                        }
                    }
                    Ok(if failed { "failed" } else if ran.len() < q.len() { "stopped" } else { "all run" })
                });
            }
        }
    }
    long_lists(c, &mut states);
    c.states = states.len() as u64;
    // the standard sets are the concatenation of their parts
    let mut specs: Vec<Spec> = vec![Spec::default()];
    for n in ["Good", "bad_name", "killMaster"] {
        for (_, f) in named_positions() {
            specs.push(f(n));
        }
    }
    for (_, p) in positions() {
        for t in ["a#Gone", "a#Own", "smithy.api#String"] {
            specs.push(Spec::default().with("a#Own", p(t)).with("a#Gone", Body::Unresolved));
        }
    }
    let few = specs.len();
    specs.extend(shared(c).into_iter().step_by(if c.thorough { 1 } else { 7 }).map(|(_, s)| s));
    for (k, sp) in specs.iter().enumerate() {
        for ff in [false, true] {
            c.case(&format!("standard sets fail_fast={ff} {}", sp.show()), true, || {
                let m = sp.build();
                // where a name occurs several times, any of the places may be named
                let each = |v: Vec<ActionIssue>| sorted(v.iter().map(|i| if k >= few && i.reporter() == "UnwelcomeTerms" { format!("{} {}", lvl(i.level()), i.message()) } else { show_issues(std::slice::from_ref(i)).concat() }).collect());
                let (mut a, mut b) = (NamingConventions::default(), UnwelcomeTerms::default());
                a.check(&m).map_err(|e| e.to_string())?;
                b.check(&m).map_err(|e| e.to_string())?;
                let want = [a.issues().clone(), b.issues().clone()].concat();
                let got = atelier_lib::actions::standard_model_lint(&m, ff).map_err(|e| e.to_string())?;
                same("lint", each(got), each(want))?;
                let (mut a, mut b) = (NoUnresolvedReferences::default(), CorrectTypeReferences::default());
                a.validate(&m).map_err(|e| e.to_string())?;
                b.validate(&m).map_err(|e| e.to_string())?;
                let mut want = a.issues().clone();
                if !(ff && want.iter().any(|i| *i.level() == IssueLevel::Error)) {
                    want.extend(b.issues().iter().cloned());
                }
                let got = atelier_lib::actions::standard_model_validation(&m, ff).map_err(|e| e.to_string())?;
                same("validation", each(got), each(want))
            });
        }
    }
}

/// Long lists of actions, actions with many issues, and actions whose issues are equal: one that
/// differs from the others, wherever it stands.
fn long_lists(c: &mut Ctx, states: &mut BTreeSet<String>) {
    #[derive(Debug)]
    struct Many {
        levels: Vec<u8>,
        equal: bool,
        fails: bool,
        index: usize,
        log: Rc<RefCell<Vec<usize>>>,
        issues: Vec<ActionIssue>,
    }
    fn makes(levels: &[u8], equal: bool, index: usize) -> Vec<ActionIssue> {
        let one = |n: usize, l: &u8| {
            let (r, m) = if equal { ("same".to_string(), "same".to_string()) } else { (format!("r{index}"), format!("m{n}")) };
            match l {
                b'i' => ActionIssue::info(&r, &m),
                b'w' => ActionIssue::warning_at(&r, &m, sid("a#A")),
                _ => ActionIssue::error(&r, &m),
            }
        };
        levels.iter().enumerate().map(|(n, l)| one(n, l)).collect()
    }
    impl Action for Many {
        fn label(&self) -> &'static str {
            "many"
        }
        fn issues(&self) -> &Vec<ActionIssue> {
            &self.issues
        }
        fn issues_mut(&mut self) -> &mut Vec<ActionIssue> {
            &mut self.issues
        }
    }
    impl Many {
        fn go(&mut self) -> atelier_core::error::Result<()> {
            self.log.borrow_mut().push(self.index);
            self.issues.extend(makes(&self.levels, self.equal, self.index));
            if self.fails {
                return Err(ErrorKind::UnknownShape("many".into()).into());
            }
            Ok(())
        }
    }
    impl Linter for Many {
        fn check(&mut self, _: &Model) -> atelier_core::error::Result<()> {
            self.go()
        }
    }
    impl Validator for Many {
        fn validate(&mut self, _: &Model) -> atelier_core::error::Result<()> {
            self.go()
        }
    }
    // (actions, issues of each), and where in them what differs stands
    let mut shapes: Vec<(usize, usize)> = vec![];
    for n in (1..=12).chain([15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257]) {
        shapes.extend([(n, 0), (n, 1), (n, 2), (1, n), (2, n), (3, n)]);
    }
    shapes.sort();
    shapes.dedup();
    for (n, k) in shapes {
        let ends = |n: usize| -> Vec<usize> {
            let mut v = if n <= 12 { (0..n).collect::<Vec<_>>() } else { vec![0, 1, n / 2, n - 2, n - 1] };
            v.dedup();
            v
        };
        for base in [b'i', b'w', b'e'] {
            for equal in [false, true] {
                for other in [None, Some(b'i'), Some(b'e'), Some(b'!')] {
                    let mut at: Vec<(usize, usize)> = vec![];
                    for p in ends(n) {
                        at.extend(ends(k.max(1)).into_iter().map(|q| (p, q)));
                    }
                    if other.is_none() {
                        at.truncate(1);
                    }
                    if other == Some(base) {
                        continue;
                    }
                    for (p, q) in at {
                        if other == Some(b'!') && q > 0 {
                            continue;
                        }
                        for ff in [false, true] {
                            let label = format!("{n} actions of {k} issues {:?} equal={equal}, at {p} {q} {:?} fail_fast={ff}", base as char, other.map(|o| o as char));
                            if c.mine(&label) {
                                c.traces += 1;
                                c.transitions += 2 * n as u64;
                                states.insert(label.clone());
                            }
                            c.case_o(&label, true, || {
                                let m = Model::default();
                                let log = Rc::new(RefCell::new(vec![]));
                                let levels = |i: usize| {
                                    let mut l = vec![base; k];
                                    match other {
                                        Some(o) if o != b'!' && i == p => {
                                            if q < l.len() {
                                                l[q] = o;
                                            } else {
                                                l.push(o);
                                            }
                                        }
                                        _ => {}
                                    }
                                    l
                                };
                                let mk = |i: usize| Many { levels: levels(i), equal, fails: other == Some(b'!') && i == p, index: i, log: log.clone(), issues: vec![] };
                                let (mut ran, mut want, mut failed) = (vec![], vec![], false);
                                for i in 0..n {
                                    ran.push(i);
                                    if other == Some(b'!') && i == p {
                                        failed = true;
                                        break;
                                    }
                                    want.extend(makes(&levels(i), equal, i));
                                    if ff && levels(i).contains(&b'e') {
                                        break;
                                    }
                                }
                                for linters in [true, false] {
                                    log.borrow_mut().clear();
                                    let got = if linters {
                                        let mut ls: Vec<Box<dyn Linter>> = (0..n).map(|i| Box::new(mk(i)) as Box<dyn Linter>).collect();
                                        run_linter_actions(&mut ls, &m, ff)
                                    } else {
                                        let mut vs: Vec<Box<dyn Validator>> = (0..n).map(|i| Box::new(mk(i)) as Box<dyn Validator>).collect();
                                        run_validation_actions(&mut vs, &m, ff)
                                    };
                                    same("actions run", log.borrow().clone(), ran.clone())?;
                                    same("fails", got.is_err(), failed)?;
                                    if let Ok(g) = got {
                                        same("issues", show_issues(&g), show_issues(&want))?;
                                    }
                                }
                                Ok(if failed { "failed" } else if ran.len() < n { "stopped" } else { "all run" })
                            });
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------ C24
struct Rec {
    log: RefCell<Vec<String>>,
    fail_at: Option<usize>,
    members: Option<Box<MRec>>,
}
struct MRec {
    outer: Rc<RefCell<Vec<String>>>,
    fail_at: Option<usize>,
}
impl Rec {
    fn hit(&self, s: String) -> Result<(), String> {
        let n = self.log.borrow().len();
        self.log.borrow_mut().push(s.clone());
        if Some(n) == self.fail_at {
            Err(format!("stop at {s}"))
        } else {
            Ok(())
        }
    }
}
fn sh(kind: &str, id: &ShapeID, t: &AppliedTraits, b: Option<Body>) -> String {
    match b {
        Some(b) => {
            assert_eq!(kind, b.kind());
            show_shape(&id.to_string(), &Shape { traits: traits_from(t), body: b })
        }
        None => format!("{kind} {id}"),
    }
}
impl ModelVisitor for Rec {
    type Error = String;
    fn metadata(&self, k: &str, v: &Value) -> Result<(), String> {
        self.hit(format!("meta {k:?}={}", show_v(&v_from(v))))
    }
    fn simple_shape(&self, id: &ShapeID, t: &AppliedTraits, s: &Simple) -> Result<(), String> {
        self.hit(sh(simple_name(s), id, t, Some(Body::Simple(simple_name(s).into()))))
    }
    fn list(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), String> {
        self.hit(sh("list", id, t, Some(body_from(&atelier_core::model::shapes::ShapeKind::List(s.clone())))))
    }
    fn set(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), String> {
        self.hit(sh("set", id, t, Some(body_from(&atelier_core::model::shapes::ShapeKind::Set(s.clone())))))
    }
    fn map(&self, id: &ShapeID, t: &AppliedTraits, s: &Map) -> Result<(), String> {
        self.hit(sh("map", id, t, Some(body_from(&atelier_core::model::shapes::ShapeKind::Map(s.clone())))))
    }
    fn structure(&self, id: &ShapeID, t: &AppliedTraits, s: &StructureOrUnion) -> Result<(), String> {
        self.hit(sh("structure", id, t, Some(body_from(&atelier_core::model::shapes::ShapeKind::Structure(s.clone())))))
    }
    fn union(&self, id: &ShapeID, t: &AppliedTraits, s: &StructureOrUnion) -> Result<(), String> {
        self.hit(sh("union", id, t, Some(body_from(&atelier_core::model::shapes::ShapeKind::Union(s.clone())))))
    }
    fn service(&self, id: &ShapeID, t: &AppliedTraits, s: &Service) -> Result<(), String> {
        self.hit(sh("service", id, t, Some(body_from(&atelier_core::model::shapes::ShapeKind::Service(s.clone())))))
    }
    fn operation(&self, id: &ShapeID, t: &AppliedTraits, s: &Operation) -> Result<(), String> {
        self.hit(sh("operation", id, t, Some(body_from(&atelier_core::model::shapes::ShapeKind::Operation(s.clone())))))
    }
    fn resource(&self, id: &ShapeID, t: &AppliedTraits, s: &Resource) -> Result<(), String> {
        self.hit(sh("resource", id, t, Some(body_from(&atelier_core::model::shapes::ShapeKind::Resource(s.clone())))))
    }
    fn unresolved_id(&self, id: &ShapeID, t: &AppliedTraits) -> Result<(), String> {
        self.hit(sh("unresolved", id, t, Some(Body::Unresolved)))
    }
    fn member_visitor(&self) -> Option<&dyn MemberVisitor<Error = String>> {
        self.members.as_deref().map(|m| m as &dyn MemberVisitor<Error = String>)
    }
}
impl MemberVisitor for MRec {
    type Error = String;
    fn member(&self, p: &ShapeID, n: &Identifier, t: &ShapeID, tr: Option<&AppliedTraits>) -> Result<(), String> {
        let s = format!("{p}.{n}->{t} {:?}", tr.map(traits_from));
        let k = self.outer.borrow().len();
        self.outer.borrow_mut().push(s.clone());
        if Some(k) == self.fail_at {
            Err(format!("stop at {s}"))
        } else {
            Ok(())
        }
    }
}
fn expected_members(sp: &Spec) -> Vec<String> {
    let mut out = vec![];
    for (id, s) in &sp.shapes {
        for m in s.body.members() {
            out.push(format!("{id}.{}->{} {:?}", m.name, m.target, Some(&m.traits)));
        }
        let mut r = |n: &str, t: &String| out.push(format!("{id}.{n}->{t} {:?}", None::<Traits>));
        match &s.body {
            Body::Service(x) => {
                x.operations.iter().for_each(|t| r("operations", t));
                x.resources.iter().for_each(|t| r("resources", t));
            }
            Body::Operation(x) => {
                x.input.iter().for_each(|t| r("input", t));
                x.output.iter().for_each(|t| r("output", t));
                x.errors.iter().for_each(|t| r("errors", t));
            }
            Body::Resource(x) => {
                for k in 0..6 {
                    x.life[k].iter().for_each(|t| r(LIFE[k], t));
                }
                x.operations.iter().for_each(|t| r("operations", t));
                x.collection_operations.iter().for_each(|t| r("collectionOperations", t));
                x.resources.iter().for_each(|t| r("resources", t));
            }
            _ => {}
        }
    }
    sorted(out)
}

pub fn walk(c: &mut Ctx) {
    c.rule = "every model with one shape of a 310-body family and every pair over one body per kind, with traits, member traits and metadata, under two hash seeds; the shared families of models and every one-detail change of rich ones; the walk without and with a member visitor; every position of the callback that fails; non-trivial = the model is not empty".into();
    fn check(sp: &Spec) -> Result<usize, String> {
        let m = sp.build();
        let mut want: Vec<String> = sp.metadata.iter().map(|(k, v)| format!("meta {k:?}={}", show_v(v))).collect();
        want.extend(sp.shapes.iter().map(|(k, s)| show_shape(k, s)));
        let want = sorted(want);
        let v = Rec { log: RefCell::new(vec![]), fail_at: None, members: None };
        walk_model(&m, &v)?;
        same("callbacks", sorted(v.log.borrow().clone()), want.clone())?;
        let n = want.len();
        // of many, the first, some in between and the last
        let some = |n: usize| -> Vec<usize> { (0..n).filter(|k| n < 60 || *k < 3 || k + 3 > n || k % (n / 8) == 0).collect() };
        for k in some(n) {
            let v = Rec { log: RefCell::new(vec![]), fail_at: Some(k), members: None };
            let r = walk_model(&m, &v);
            let log = v.log.borrow().clone();
            same("callbacks before the failing one", log.len(), k + 1)?;
            same("error returned", r, Err(format!("stop at {}", log[k])))?;
        }
        // with a member visitor
        let wm = expected_members(sp);
        let mlog = Rc::new(RefCell::new(vec![]));
        let v = Rec { log: RefCell::new(vec![]), fail_at: None, members: Some(Box::new(MRec { outer: mlog.clone(), fail_at: None })) };
        walk_model(&m, &v)?;
        same("callbacks with a member visitor", sorted(v.log.borrow().clone()), want)?;
        same("member callbacks", sorted(mlog.borrow().clone()), wm.clone())?;
        for k in some(wm.len()) {
            let mlog = Rc::new(RefCell::new(vec![]));
            let v = Rec { log: RefCell::new(vec![]), fail_at: None, members: Some(Box::new(MRec { outer: mlog.clone(), fail_at: Some(k) })) };
            let r = walk_model(&m, &v);
            let log = mlog.borrow().clone();
            same("member callbacks before the failing one", log.len(), k + 1)?;
            same("member error returned", r, Err(format!("stop at {}", log[k])))?;
        }
        Ok(n + wm.len())
    }
    c.case("empty model", false, || check(&Spec::default()).map(|_| ()));
    let deco = |b: &Body| {
        let mut b = b.clone();
        for (i, m) in b.members_mut().into_iter().enumerate() {
            m.traits = traits(&[(&format!("t#m{i}"), Some(V::Int(i as i64)))]);
        }
        Shape { traits: traits(&[("t#s", None), ("t#v", Some(s("x")))]), body: b }
    };
    for b in body_variants() {
        for with in [false, true] {
            let mut sp = Spec::default();
            sp.shapes.insert("a#S".into(), if with { deco(&b) } else { Shape { traits: Traits::new(), body: b.clone() } });
            if with {
                sp.metadata.insert("k".into(), s("v"));
                sp.metadata.insert("l".into(), V::Arr(vec![V::None]));
            }
            c.case(&sp.show(), true, || {
                for seed in [1, 2] {
                    with_seed(seed, || check(&sp))?;
                }
                Ok(())
            });
        }
    }
    for (name, sp) in shared(c) {
        c.case(&name, true, || check(&sp).map(|_| ()));
    }
    for x in plain_bodies() {
        for y in plain_bodies() {
            let mut sp = Spec::default();
            sp.shapes.insert("a#S".into(), deco(&x));
            sp.shapes.insert("b#S".into(), deco(&y));
            c.case(&sp.show(), true, || check(&sp).map(|_| ()));
        }
    }
}
