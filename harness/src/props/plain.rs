//! C37: value builders, shape names, issues and versions.
use crate::kit::gen::*;
use crate::kit::run::Ctx;
use crate::kit::spec::*;
use atelier_core::action::{ActionIssue, IssueLevel};
use atelier_core::builder::id::ShapeName;
use atelier_core::builder::traits::ErrorSource;
use atelier_core::builder::ModelBuilder;
use atelier_core::builder::values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
use atelier_core::model::values::{Number, Value};
use atelier_core::model::{Identifier, ShapeID};
use atelier_core::prelude;
use atelier_core::Version;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::str::FromStr;

fn same<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

#[derive(Clone, Copy, Debug)]
enum Call {
    Push(usize),
    Number(usize),
    Integer(i64),
    Float(f64),
    Boolean(bool),
    String(&'static str),
    Reference(&'static str),
}
fn pushed(i: usize) -> V {
    match i {
        0 => V::None,
        1 => V::Arr(vec![V::Int(1), V::None]),
        2 => obj(&[("k", s("v")), ("K", V::Arr(vec![]))]),
        3 => V::Arr(vec![]),
        _ => s("pushed"),
    }
}
fn number(i: usize) -> (Number, V) {
    match i {
        0 => (Number::Integer(-1), V::Int(-1)),
        _ => (Number::Float(2.5), V::Float(F(2.5))),
    }
}
impl Call {
    fn value(&self) -> V {
        match *self {
            Call::Push(i) => pushed(i),
            Call::Number(i) => number(i).1,
            Call::Integer(i) => V::Int(i),
            Call::Float(f) => V::Float(F(f)),
            Call::Boolean(b) => V::Bool(b),
            Call::String(t) | Call::Reference(t) => s(t),
        }
    }
}
const CALLS: [Call; 13] = [
    Call::Push(0),
    Call::Push(1),
    Call::Push(2),
    Call::Push(3),
    Call::Number(0),
    Call::Number(1),
    Call::Integer(0),
    Call::Integer(i64::MIN),
    Call::Float(-0.0),
    Call::Float(1.0),
    Call::Boolean(false),
    Call::Boolean(true),
    Call::String("s"),
];

fn arrays(c: &mut Ctx, depth: usize) {
    for w in sequences(CALLS.len(), depth) {
        let label = format!("array: {:?}", w.iter().map(|i| CALLS[*i]).collect::<Vec<_>>());
        if !c.mine(&label) {
            continue;
        }
        c.case_o(&label, w.len() > 1, || {
            let mut b: ArrayBuilder = ValueBuilder::array();
            let mut want = vec![];
            let mut before: Vec<(Value, V)> = vec![];
            for i in &w {
                let call = CALLS[*i];
                let _ = match call {
                    Call::Push(i) => b.push(v_to(&pushed(i))),
                    Call::Number(i) => b.number(number(i).0),
                    Call::Integer(i) => b.integer(i),
                    Call::Float(f) => b.float(f),
                    Call::Boolean(x) => b.boolean(x),
                    Call::String(t) | Call::Reference(t) => b.string(t),
                };
                want.push(call.value());
                before.push((Value::from(&mut b), V::Arr(want.clone())));
            }
            for (got, want) in &before {
                same("built on the way", v_from(got), want.clone())?;
            }
            same("built again", v_from(&Value::from(&mut b)), V::Arr(want.clone()))?;
            same("built", v_from(&Value::from(b)), V::Arr(want))?;
            Ok("array")
        });
    }
}
fn objects(c: &mut Ctx, depth: usize) {
    let mut calls: Vec<(&'static str, Call)> = vec![];
    for k in ["k", "K", "", "a b"] {
        for v in [Call::Push(0), Call::Push(2), Call::String("s"), Call::Reference("smithy.api#String"), Call::Integer(7)] {
            calls.push((k, v));
        }
    }
    for v in CALLS {
        calls.push(("k", v));
    }
    for w in sequences(calls.len(), depth) {
        let label = format!("object: {:?}", w.iter().map(|i| calls[*i]).collect::<Vec<_>>());
        if !c.mine(&label) {
            continue;
        }
        let calls = &calls;
        c.case_o(&label, w.len() > 1, || {
            let mut b: ObjectBuilder = ValueBuilder::object();
            let mut want = BTreeMap::new();
            let mut before: Vec<(Value, V)> = vec![];
            for i in &w {
                let (k, call) = calls[*i];
                let _ = match call {
                    Call::Push(i) => b.insert(k, v_to(&pushed(i))),
                    Call::Number(i) => b.number(k, number(i).0),
                    Call::Integer(i) => b.integer(k, i),
                    Call::Float(f) => b.float(k, f),
                    Call::Boolean(x) => b.boolean(k, x),
                    Call::String(t) => b.string(k, t),
                    Call::Reference(t) => b.reference(k, t),
                };
                want.insert(k.to_string(), call.value());
                before.push((Value::from(&mut b), V::Obj(want.clone())));
            }
            for (got, want) in &before {
                same("built on the way", v_from(got), want.clone())?;
            }
            same("built again", v_from(&Value::from(&mut b)), V::Obj(want.clone()))?;
            same("built", v_from(&Value::from(b)), V::Obj(want))?;
            Ok("object")
        });
    }
}
/// Long arrays and objects: as many elements, built in between at some point and at the end; keys all
/// different, all the same, or each given again in the same or the opposite order.
fn long(c: &mut Ctx) {
    for n in (4..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 5000]) {
        for mid in [1, n / 2, n - 1] {
            c.case_o(&format!("array of {n}, built at {mid}"), true, || {
                let mut b: ArrayBuilder = ValueBuilder::array();
                let mut want = vec![];
                let mut early = None;
                for i in 0..n {
                    let _ = b.integer(i as i64);
                    want.push(V::Int(i as i64));
                    if i + 1 == mid {
                        early = Some((Value::from(&mut b), V::Arr(want.clone())));
                    }
                }
                if let Some((got, want)) = early {
                    same("built on the way", v_from(&got), want)?;
                }
                same("built again", v_from(&Value::from(&mut b)), V::Arr(want.clone()))?;
                same("built", v_from(&Value::from(b)), V::Arr(want))?;
                Ok("array")
            });
            for keys in ["different", "same", "twice", "back", "case"] {
                c.case_o(&format!("object of {n} {keys} keys, built at {mid}"), true, || {
                    let mut b: ObjectBuilder = ValueBuilder::object();
                    let mut want = BTreeMap::new();
                    let mut early = None;
                    let order: Vec<String> = match keys {
                        "different" => (0..n).map(|i| format!("k{i}")).collect(),
                        "same" => (0..n).map(|_| "k".to_string()).collect(),
                        "twice" => (0..2 * n).map(|i| format!("k{}", i % n)).collect(),
                        "back" => (0..n).chain((0..n).rev()).map(|i| format!("k{i}")).collect(),
                        _ => (0..n).map(|i| format!("{}{}", if i % 2 == 0 { "k" } else { "K" }, i / 2)).collect(),
                    };
                    for (i, k) in order.iter().enumerate() {
                        let _ = b.integer(k, i as i64);
                        want.insert(k.clone(), V::Int(i as i64));
                        if i + 1 == mid {
                            early = Some((Value::from(&mut b), V::Obj(want.clone())));
                        }
                    }
                    if let Some((got, want)) = early {
                        same("built on the way", v_from(&got), want)?;
                    }
                    same("built again", v_from(&Value::from(&mut b)), V::Obj(want.clone()))?;
                    same("built", v_from(&Value::from(b)), V::Obj(want))?;
                    Ok("object")
                });
            }
        }
    }
    // long names and texts
    for n in (1..=70).chain([127, 128, 129, 255, 256, 257, 1000, 4096, 65536]) {
        for (pre, post) in [("", ""), ("a#", ""), ("", "#B"), ("a#B$", ""), ("a.", "#B"), ("a#", "$m"), ("", "!"), ("a#", "#b"), ("1", "")] {
            let t = format!("{pre}{}{post}", "n".repeat(n));
            c.case_o(&format!("name of {pre:?} {n} letters {post:?}"), true, || {
                let ok = !matches!((pre, post), ("", "!") | ("a#", "#b") | ("1", ""));
                let got = ShapeName::from_str(&t);
                same("read", got.is_ok(), ok)?;
                if let Ok(g) = got {
                    same("print", g.to_string(), t.clone())?;
                    same("is_qualified", g.is_qualified(), t.contains('#'))?;
                }
                Ok(if ok { "name" } else { "refused" })
            });
        }
        for ch in ["x", "é", "漢", "\n"] {
            c.case_o(&format!("issue of {n} {ch:?}"), true, || {
                let t = ch.repeat(n);
                for i in [ActionIssue::error(&t, &t), ActionIssue::info(&t, "m"), ActionIssue::warning("r", &t)] {
                    let r = if *i.level() == IssueLevel::Warning { "r" } else { &t };
                    let m = if *i.level() == IssueLevel::Info { "m" } else { &t };
                    same("reporter", i.reporter().as_str(), r)?;
                    same("message", i.message().as_str(), m)?;
                    same("print", i.to_string(), format!("{r} {}: {m}", i.level()))?;
                }
                Ok("issue")
            });
        }
    }
}
fn singles(c: &mut Ctx) {
    for call in CALLS.iter().chain(&[Call::String(""), Call::String("a\"b\n"), Call::Integer(i64::MAX), Call::Float(f64::MAX), Call::Float(f64::MIN_POSITIVE)]) {
        let new = || match *call {
            Call::Number(i) => Some(ValueBuilder::number(number(i).0)),
            Call::Integer(i) => Some(ValueBuilder::integer(i)),
            Call::Float(f) => Some(ValueBuilder::float(f)),
            Call::Boolean(b) => Some(ValueBuilder::boolean(b)),
            Call::String(t) | Call::Reference(t) => Some(ValueBuilder::string(t)),
            Call::Push(_) => None,
        };
        if new().is_none() {
            continue;
        }
        c.case_o(&format!("value: {call:?}"), true, || {
            let mut b = new().unwrap();
            same("built", v_from(&Value::from(&mut b)), call.value())?;
            same("built again", v_from(&Value::from(&mut b)), call.value())?;
            same("built at last", v_from(&Value::from(b)), call.value())?;
            Ok("value")
        });
    }
}
/// The part of the name that follows the last `#`, its namespace and member, by hand.
fn names(c: &mut Ctx, n: usize) {
    for t in strings(&["a", "B", "#", "$", ".", "_", "1"], n) {
        let is_id = ShapeID::is_valid(&t);
        c.case_o(&format!("name: {t:?}"), true, || {
            let got = ShapeName::from_str(&t);
            if is_id {
                let (ns, rest) = t.split_once('#').ok_or("an id without #")?;
                let (name, member) = match rest.split_once('$') {
                    Some((a, b)) => (a, Some(b)),
                    None => (rest, None),
                };
                let got = got.map_err(|e| format!("an id is refused: {e}"))?;
                let id = ShapeID::from_str(&t).map_err(|e| e.to_string())?;
                same("the same from the id", got.clone(), ShapeName::from(id.clone()))?;
                same("print", got.to_string(), t.clone())?;
                same("is_qualified, is_local", (got.is_qualified(), got.is_local()), (true, false))?;
                same("as_qualified", got.as_qualified().map(|i| i.to_string()), Some(t.clone()))?;
                same("as_local", got.as_local().is_some(), false)?;
                same("namespace", got.namespace().map(|i| i.to_string()), Some(ns.to_string()))?;
                same("shape name", got.shape_name().to_string(), name.to_string())?;
                same("member name", got.member_name().map(|i| i.to_string()), member.map(str::to_string))?;
                same("eq_qualified", got.eq_qualified(&id), true)?;
                same("eq_qualified with another", got.eq_qualified(&sid("other#Shape")), false)?;
                same("eq_local", got.eq_local(id.shape_name()), false)?;
                return Ok("qualified");
            }
            if Identifier::is_valid(&t) {
                let got = got.map_err(|e| format!("an identifier is refused: {e}"))?;
                let id = ident(&t);
                same("the same from the identifier", got.clone(), ShapeName::from(id.clone()))?;
                same("print", got.to_string(), t.clone())?;
                same("is_qualified, is_local", (got.is_qualified(), got.is_local()), (false, true))?;
                same("as_local", got.as_local().map(|i| i.to_string()), Some(t.clone()))?;
                same("as_qualified", got.as_qualified().is_some(), false)?;
                same("namespace", got.namespace().is_some(), false)?;
                same("shape name", got.shape_name().to_string(), t.clone())?;
                same("member name", got.member_name().is_some(), false)?;
                same("eq_local", got.eq_local(&id), true)?;
                same("eq_local with another", got.eq_local(&ident("other")), false)?;
                same("eq_qualified", got.eq_qualified(&sid(&format!("x#{t}"))), false)?;
                let b = ModelBuilder::new(Version::V10, "x.y");
                same("name in the builder's namespace", b.shape_name(&t).to_string(), format!("x.y#{t}"))?;
                // the prelude's shape of that name
                let p = prelude::prelude_shape_named(&t).map_err(|e| e.to_string())?;
                same("prelude shape", p.to_string(), format!("smithy.api#{t}"))?;
                return Ok("local");
            }
            same("refused", got.is_err(), true)?;
            same("no prelude shape", prelude::prelude_shape_named(&t).is_err(), true)?;
            Ok("refused")
        });
    }
}
fn issues(c: &mut Ctx) {
    let levels = [(IssueLevel::Info, "info"), (IssueLevel::Warning, "warning"), (IssueLevel::Error, "error")];
    for (i, (a, name)) in levels.iter().enumerate() {
        c.case_o(&format!("level {name}"), true, || {
            same("print", a.to_string(), name.to_string())?;
            for (j, (b, _)) in levels.iter().enumerate() {
                same("order", a.partial_cmp(b), i.partial_cmp(&j))?;
                same("equal", a == b, i == j)?;
            }
            Ok("level")
        });
    }
    let texts = ["x", " two words ", "a: b", "é\n\"", "info", "{}"];
    let places = [None, Some("a#S"), Some("a.b#S$m"), Some("smithy.api#String")];
    for (level, name) in &levels {
        for reporter in texts.iter().chain(&[""]) {
            for message in &texts {
                for place in &places {
                    c.case_o(&format!("issue {name} by {reporter:?}: {message:?} at {place:?}"), place.is_some(), || {
                        let (short, long) = match place {
                            None => (
                                match name {
                                    &"info" => ActionIssue::info(reporter, message),
                                    &"warning" => ActionIssue::warning(reporter, message),
                                    _ => ActionIssue::error(reporter, message),
                                },
                                ActionIssue::new(level.clone(), reporter, message),
                            ),
                            Some(p) => (
                                match name {
                                    &"info" => ActionIssue::info_at(reporter, message, sid(p)),
                                    &"warning" => ActionIssue::warning_at(reporter, message, sid(p)),
                                    _ => ActionIssue::error_at(reporter, message, sid(p)),
                                },
                                ActionIssue::new_at(level.clone(), reporter, message, sid(p)),
                            ),
                        };
                        let at = place.map(|p| format!(" {p}")).unwrap_or_default();
                        for x in [short.clone(), short, long] {
                            same("reporter", x.reporter().as_str(), *reporter)?;
                            same("level", x.level(), level)?;
                            same("message", x.message().as_str(), *message)?;
                            same("place", x.locus().as_ref().map(|i| i.to_string()), place.map(str::to_string))?;
                            same("print", x.to_string(), format!("{reporter} {name}{at}: {message}"))?;
                        }
                        Ok("issue")
                    });
                }
            }
        }
    }
}
fn versions(c: &mut Ctx, n: usize) {
    for t in strings(&["1", "0", ".", " ", "2", "v", "\n"], n) {
        c.case_o(&format!("version {t:?}"), true, || {
            let got = Version::from_str(&t);
            if t == "1" || t == "1.0" {
                let v = got.map_err(|e| format!("refused: {e}"))?;
                same("print", v.to_string(), "1.0".to_string())?;
                same("the current one", v == Version::current() && v == Version::default(), true)?;
                return Ok("read");
            }
            same("refused", got.is_err(), true)?;
            Ok("refused")
        });
    }
}
fn sources(c: &mut Ctx) {
    for t in ["client", "server", "Client", "SERVER", "clientserver", "", " client", "server ", "clien", "fault"] {
        c.case_o(&format!("error source {t:?}"), true, || {
            let got = ErrorSource::from_str(t);
            if t == "client" || t == "server" {
                let v = got.map_err(|e| format!("refused: {e}"))?;
                same("print", v.to_string(), t.to_string())?;
                same("which", matches!(v, ErrorSource::Client), t == "client")?;
                return Ok("read");
            }
            same("refused", got.is_err(), true)?;
            Ok("refused")
        });
    }
}

pub fn run(c: &mut Ctx) {
    let t = c.thorough;
    c.rule = "every sequence of up to four (five thorough) calls of the array builder with thirteen kinds of element, and of up to three of the object builder with 33 kinds of entry, built after every call, again and for good; arrays and objects of up to 5000 elements with keys that differ or recur, names and texts of up to 65536 characters; every single value; every text of up to six (seven thorough) of seven characters as a shape name, up to five (six) of seven as a version; every issue of three levels, seven reporters, six messages and four places: each has and prints exactly the parts it was given; state = builder contents, transition = one call; non-trivial = at least two calls, or a name, or a place".into();
    c.per_case = 1;
    arrays(c, if t { 5 } else { 4 });
    objects(c, 3);
    long(c);
    singles(c);
    names(c, if t { 7 } else { 6 });
    issues(c);
    versions(c, if t { 6 } else { 5 });
    sources(c);
}
