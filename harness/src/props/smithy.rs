//! C14-C17: the Smithy IDL reader and writer.
use super::builder;
use super::fam::*;
use super::iofam::*;
use super::merging::{decorate, perms, sort_arrays};
use crate::kit::doc::Doc;
use crate::kit::gen::*;
use crate::kit::idl::{self, layout, print, quote, styles, usual, Gap, Stop, Style, Toks, PLAIN};
use crate::kit::order::with_seed;
use crate::kit::run::*;
use crate::kit::spec::*;
use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_core::model::{Model, NamespaceID};
use atelier_smithy::{SmithyReader, SmithyWriter};
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub fn read(text: &str) -> Result<Model, String> {
    read_model_from_string(&mut SmithyReader::default(), text).map_err(|e| e.to_string())
}
pub fn write(m: &Model, ns: &str) -> Result<String, String> {
    write_model_to_string(&mut SmithyWriter::new(NamespaceID::new_unchecked(ns)), m).map_err(|e| e.to_string())
}

// ------------------------------------------------------------------------------------------------
// Judging

fn norm_doc(d: &Doc) -> Doc {
    let mut d = d.clone();
    for (_, s) in d.defs.iter_mut() {
        norm_traits(&mut s.traits);
        for m in s.body.members_mut() {
            norm_traits(&mut m.traits);
        }
    }
    for (_, _, v) in d.applies.iter_mut() {
        v.get_or_insert_with(|| V::Obj(BTreeMap::new()));
    }
    d
}
/// Names that are the same but for their letter case; what they mean is not laid down.
fn case_clash(d: &Doc) -> bool {
    let mut names: BTreeSet<String> = BTreeSet::new();
    fn last(s: &str) -> String {
        let s = s.split('$').next().unwrap();
        s.rsplit('#').next().unwrap().to_string()
    }
    let mut members: BTreeSet<String> = BTreeSet::new();
    for (n, s) in &d.defs {
        names.insert(last(n));
        names.extend(s.traits.keys().map(|k| last(k)));
        for m in s.body.members() {
            members.insert(m.name.clone());
            names.insert(last(&m.target));
            names.extend(m.traits.keys().map(|k| last(k)));
        }
        match &s.body {
            Body::Service(x) => names.extend(x.operations.iter().chain(&x.resources).chain(x.renames.keys()).map(|k| last(k))),
            Body::Operation(x) => names.extend(x.input.iter().chain(&x.output).chain(&x.errors).map(|k| last(k))),
            Body::Resource(x) => {
                names.extend(x.identifiers.values().chain(x.life.iter().flatten()).chain(&x.operations).chain(&x.collection_operations).chain(&x.resources).map(|k| last(k)));
                let low: BTreeSet<String> = x.identifiers.keys().map(|k| k.to_ascii_lowercase()).collect();
                if low.len() < x.identifiers.len() {
                    return true;
                }
            }
            _ => {}
        }
    }
    names.extend(d.uses.iter().map(|u| last(u)));
    for (t, n, _) in &d.applies {
        names.insert(last(t));
        names.insert(last(n));
        if let Some((_, m)) = t.split_once('$') {
            if members.iter().any(|x| x != m && x.eq_ignore_ascii_case(m)) {
                return true;
            }
        }
    }
    // the names of the prelude take part
    let low: Vec<String> = names.iter().map(|n| n.to_ascii_lowercase()).collect();
    if low.iter().collect::<BTreeSet<_>>().len() < names.len() {
        return true;
    }
    use crate::kit::doc::*;
    names.iter().any(|n| PRELUDE_SHAPES.iter().chain(&PRELUDE_TRAITS).chain(&PRELUDE_TRAITS2).any(|p| p != n && p.eq_ignore_ascii_case(n)))
        && d.defs.iter().any(|(n, _)| PRELUDE_SHAPES.iter().any(|p| p.eq_ignore_ascii_case(&last(n))))
}
/// Are arrays joined in an order that is not laid down?
fn joins(d: &Doc) -> bool {
    !d.applies.is_empty() || d.defs.iter().map(|(n, _)| n).collect::<BTreeSet<_>>().len() < d.defs.len()
}
fn same(d: &Doc, want: &Spec, got: &Spec) -> Result<(), String> {
    if joins(d) {
        diff(&norm(&sort_arrays(want)), &norm(&sort_arrays(got)))
    } else {
        diff(&norm(want), &norm(got))
    }
}

/// Read `text` with the code under test and hold the answer against the reference reader's.
pub fn judge(text: &str) -> Result<&'static str, String> {
    let got = silent(|| read(text))?;
    let want = match idl::read(text) {
        Err(Stop::Free) => return Ok("not judged"),
        Err(Stop::Refuse) => {
            return match got {
                Err(_) => Ok("refused"),
                Ok(m) => Err(format!("accepted as {}", Spec::observe(&m).show())),
            }
        }
        Ok(r) => r,
    };
    if case_clash(&want.doc) {
        return Ok("not judged");
    }
    match (want.doc.resolve(), got) {
        (Err(()), Err(_)) => Ok("contradiction refused"),
        (Err(()), Ok(m)) => {
            if let Some(p) = &want.pinned {
                if p.resolve().is_ok() {
                    return Ok("not judged");
                }
            }
            Err(format!("accepted a contradiction or an ambiguity: {}", Spec::observe(&m).show()))
        }
        (Ok(_), Err(_)) if want.lax => Ok("liberty refused"),
        (Ok(_), Err(e)) => Err(format!("refused: {e}")),
        (Ok(sp), Ok(m)) => {
            let got = Spec::observe(&m);
            let Err(e) = same(&want.doc, &sp, &got) else { return Ok(if want.lax { "liberty accepted" } else { "accepted" }) };
            if let Some(p) = want.pinned.and_then(|p| p.resolve().ok().map(|s| (p, s))) {
                if same(&p.0, &p.1, &got).is_ok() {
                    return Ok("accepted, pinned reading");
                }
            }
            Err(e)
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Documents

/// A specification in one namespace as a document: definitions, and `apply` for what is elsewhere.
pub fn doc_of(sp: &Spec, ns: &str, local: bool) -> Doc {
    let mut d = Doc::new(ns);
    d.meta = sp.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let pre = format!("{ns}#");
    for (id, sh) in &sp.shapes {
        if let Body::Unresolved = sh.body {
            for (t, v) in &sh.traits {
                d.applies.push((id.clone(), t.clone(), v.clone()));
            }
            continue;
        }
        let n = id.strip_prefix(&pre).unwrap_or_else(|| panic!("harness: {id} is not in {ns}"));
        let mut sh = sh.clone();
        if local {
            // names that resolve to what they are
            let short = |x: &mut String, is_trait: bool| {
                if let Some((n, s)) = x.split_once('#') {
                    let own = sp.shapes.get(&format!("{pre}{s}")).is_some_and(|s| !matches!(s.body, Body::Unresolved));
                    let table = if is_trait { crate::kit::doc::PRELUDE_TRAITS.contains(&s) || crate::kit::doc::PRELUDE_TRAITS2.contains(&s) } else { crate::kit::doc::PRELUDE_SHAPES.contains(&s) };
                    if (n == ns && (own || !table)) || (n == "smithy.api" && table && !own) {
                        *x = s.to_string();
                    }
                }
            };
            let tr = |t: &Traits| -> Traits {
                t.iter()
                    .map(|(k, v)| {
                        let mut k = k.clone();
                        short(&mut k, true);
                        (k, v.clone())
                    })
                    .collect()
            };
            sh.traits = tr(&sh.traits);
            for m in sh.body.members_mut() {
                m.traits = tr(&m.traits);
                short(&mut m.target, false);
            }
            // where a node value stands these words are no names
            let short = |x: &mut String, is_trait: bool| {
                if !["#true", "#false", "#null"].iter().any(|w| x.ends_with(w)) {
                    short(x, is_trait)
                }
            };
            match &mut sh.body {
                Body::Service(x) => x.operations.iter_mut().chain(x.resources.iter_mut()).for_each(|s| short(s, false)),
                Body::Operation(x) => x.input.iter_mut().chain(x.output.iter_mut()).chain(x.errors.iter_mut()).for_each(|s| short(s, false)),
                Body::Resource(x) => x.identifiers.values_mut().chain(x.life.iter_mut().flatten()).chain(x.operations.iter_mut()).chain(x.collection_operations.iter_mut()).chain(x.resources.iter_mut()).for_each(|s| short(s, false)),
                _ => {}
            }
        }
        d.defs.push((n.to_string(), sh));
    }
    d
}
fn finite(v: &V) -> bool {
    match v {
        V::Float(F(f)) => f.is_finite(),
        V::Arr(a) => a.iter().all(finite),
        V::Obj(o) => o.values().all(finite),
        _ => true,
    }
}
pub fn namespace_of(sp: &Spec) -> Option<String> {
    let v: BTreeSet<&str> = sp.shapes.iter().filter(|(_, s)| !matches!(s.body, Body::Unresolved)).map(|(i, _)| i.split('#').next().unwrap()).collect();
    match v.len() {
        0 => Some("a".into()),
        1 => v.into_iter().next().map(|s| s.to_string()),
        _ => None,
    }
}
/// Only local definitions can be written down in the IDL.
fn writable(d: &Doc) -> Option<Doc> {
    let mut d = norm_doc(d);
    for (n, _) in d.defs.iter_mut() {
        if let Some((ns, s)) = n.clone().split_once('#') {
            if ns != d.ns {
                return None;
            }
            *n = s.to_string();
        }
    }
    Some(d)
}
fn base_docs(c: &Ctx) -> Vec<(String, Doc)> {
    let mut out = vec![];
    for (n, sp) in single(c.thorough) {
        let Some(ns) = namespace_of(&sp) else { panic!("harness: {n}") };
        out.push((n.clone(), norm_doc(&doc_of(&sp, &ns, true))));
        if c.thorough || h64(&n) % 4 == 0 {
            out.push((format!("{n} (qualified)"), norm_doc(&doc_of(&sp, &ns, false))));
        }
    }
    out
}
/// Print, make sure that the reference reader agrees, and judge.
fn check_doc(d: &Doc, st: Style) -> Result<&'static str, String> {
    let text = print(d, st).text();
    match idl::read(&text) {
        Ok(r) => {
            if r.lax {
                panic!("harness: the printer takes liberties: {text}");
            }
            let same = match (r.doc.resolve(), d.resolve()) {
                (Ok(a), Ok(b)) => a == b,
                (Err(()), Err(())) => true,
                _ => false,
            };
            if !same {
                panic!("harness: the reference reader does not agree with the printer: {text}\n{}\n{}", r.doc.show(), d.show());
            }
        }
        Err(Stop::Refuse) => panic!("harness: the reference reader refuses what the printer wrote: {text}"),
        Err(Stop::Free) => {}
    }
    judge(&text).map_err(|e| format!("{e}\nin {text}"))
}

/// Node values as written, and what they are.
fn written() -> Vec<(String, V)> {
    let mut v: Vec<(String, V)> = vec![];
    let mut put = |t: &str, x: V| v.push((t.to_string(), x));
    for t in ["1.0", "-1.5", "0.1", "1e5", "1E5", "1e+5", "1e-5", "1.5e3", "1.5E-3", "-2e0", "0e0", "0.0", "10.25", "1e22", "123456789.123456789", "0.5e10"] {
        put(t, V::Float(F(t.parse().unwrap())));
    }
    for t in ["0", "1", "-1", "10", "9223372036854775807", "-9223372036854775808", "1000000000000"] {
        put(t, V::Int(t.parse().unwrap()));
    }
    put("true", V::Bool(true));
    put("false", V::Bool(false));
    put("null", V::None);
    for t in ["nullable", "trueish", "falsehood", "null_", "true1", "nul", "City", "a#B", "a.b.c#D", "a.b#C$d", "C$d", "_x", "__x1", "structure", "null#x", "true.false#null", "list"] {
        put(t, s(t));
    }
    for (t, x) in [
        (r#""""#, ""),
        (r#""a""#, "a"),
        (r#""a b""#, "a b"),
        (r#""\"""#, "\""),
        (r#""x\"y\"z""#, "x\"y\"z"),
        (r#""\n""#, "\n"),
        (r#""\t\r\b\f""#, "\t\r\u{8}\u{c}"),
        (r#""\/\'""#, "/'"),
        (r#""\u0041""#, "A"),
        (r#""\u00e9\u00E9""#, "éé"),
        (r#""\u005c""#, "\\"),
        (r#""\u005cn""#, "\\n"),
        (r#""\u0022""#, "\""),
        (r#""\u0000""#, "\0"),
        (r#""\uD83D\uDE00""#, "\u{1F600}"),
        (r#""\ud83d\ude00x""#, "\u{1F600}x"),
        (r#""\d""#, "\\d"),
        (r#""\d+\w\.""#, "\\d+\\w\\."),
        (r#""^[A-Za-z0-9 ]+$""#, "^[A-Za-z0-9 ]+$"),
        (r#""// no comment""#, "// no comment"),
        (r#""/// no comment""#, "/// no comment"),
        (r#""a,b""#, "a,b"),
        (r#"",""#, ","),
        (r#"" lead""#, " lead"),
        (r#""日本語 é \u{1}""#, "日本語 é \\u{1}"),
        ("\"\u{1F600}\u{10FFFF}\u{FFFF}\"", "\u{1F600}\u{10FFFF}\u{FFFF}"),
        ("\"\u{7f}\u{a0}\u{2028}\"", "\u{7f}\u{a0}\u{2028}"),
    ] {
        // an escape with a meaning of its own in only some versions
        if t.contains(r"\u{") {
            continue;
        }
        put(t, s(x));
    }
    for (t, x) in [
        ("\"\"\"\nx\"\"\"", "x"),
        ("\"\"\"\nx\n\"\"\"", "x\n"),
        ("\"\"\"\nx\ny\"\"\"", "x\ny"),
        ("\"\"\"\nx\n\ny\n\"\"\"", "x\n\ny\n"),
        ("\"\"\"\n, x\"\"\"", ", x"),
        ("\"\"\"\n// x\ny\"\"\"", "// x\ny"),
        ("\"\"\"\nsay \"x\" and \"\"y\"\"!\"\"\"", "say \"x\" and \"\"y\"\"!"),
        ("\"\"\"\nx\\ty\\n\\\"z\"\"\"", "x\ty\n\"z"),
        ("\"\"\"\n\\\"\\\"\\\"x\"\"\"", "\"\"\"x"),
        ("\"\"\"\n{a: [1]}\"\"\"", "{a: [1]}"),
        ("\"\"\"\né日\u{1F600}\"\"\"", "é日\u{1F600}"),
    ] {
        put(t, s(x));
    }
    put("[]", V::Arr(vec![]));
    put("[1, 2]", V::Arr(vec![V::Int(1), V::Int(2)]));
    put("[1 2]", V::Arr(vec![V::Int(1), V::Int(2)]));
    put("[1 2 ,]", V::Arr(vec![V::Int(1), V::Int(2)]));
    put("[nullable null]", V::Arr(vec![s("nullable"), V::None]));
    put("[true, trueish]", V::Arr(vec![V::Bool(true), s("trueish")]));
    put("[[], [[]], {}]", V::Arr(vec![V::Arr(vec![]), V::Arr(vec![V::Arr(vec![])]), V::Obj(BTreeMap::new())]));
    put("{}", V::Obj(BTreeMap::new()));
    put("{a: 1}", obj(&[("a", V::Int(1))]));
    put("{a: 1 b: 2}", obj(&[("a", V::Int(1)), ("b", V::Int(2))]));
    put("{null: null, true: true}", obj(&[("null", V::None), ("true", V::Bool(true))]));
    put("{list: {member: [x]}}", obj(&[("list", obj(&[("member", V::Arr(vec![s("x")]))]))]));
    v
}
/// Values whose reading the repository's own tests hold to something else (known_findings.txt).
fn pinned() -> Vec<(&'static str, V)> {
    vec![
        (r#"{"a": 1}"#, obj(&[("a", V::Int(1))])),
        (r#"[{"a b": "c"}]"#, V::Arr(vec![obj(&[("a b", s("c"))])])),
        (r#""\\""#, s("\\")),
        (r#""^\\d$""#, s("^\\d$")),
        ("\"\"\"\n    x\n      y\n    \"\"\"", s("x\n  y\n")),
    ]
}

/// The positions a value can stand in, as a statement, and the model it makes.
fn holders() -> Vec<(&'static str, fn(&str) -> String, fn(V) -> Spec)> {
    fn shape(v: V) -> Spec {
        Spec { shapes: BTreeMap::from([("a#S".to_string(), Shape { traits: traits(&[("t.u#tr", Some(v))]), body: Body::Simple("string".into()) })]), ..Default::default() }
    }
    fn member(v: V) -> Spec {
        Spec::default().with("a#S", Body::Structure(st(&[Mem { name: "m".into(), target: "smithy.api#String".into(), traits: traits(&[("t.u#tr", Some(v))]) }])))
    }
    fn apply(v: V) -> Spec {
        shape(v)
    }
    fn meta(v: V) -> Spec {
        Spec { metadata: BTreeMap::from([("k".to_string(), v)]), ..Default::default() }.with("a#S", Body::Simple("string".into()))
    }
    fn inside(v: V) -> Spec {
        shape(obj(&[("x", V::Arr(vec![v.clone(), V::Int(7)])), ("y", v)]))
    }
    fn structure(v: V) -> Spec {
        shape(obj(&[("x", v.clone()), ("k y", v)]))
    }
    vec![
        ("trait", |t| format!("namespace a\n@t.u#tr({t})\nstring S\n"), shape),
        ("member trait", |t| format!("namespace a\nstructure S {{ @t.u#tr({t}) m: String }}\n"), member),
        ("apply", |t| format!("namespace a\nstring S\napply S @t.u#tr({t})\n"), apply),
        ("metadata", |t| format!("metadata k = {t}\nnamespace a\nstring S\n"), meta),
        ("quoted metadata", |t| format!("metadata \"k\" = {t}\nnamespace a\nstring S\n"), meta),
        ("inside", |t| format!("namespace a\n@t.u#tr(x: [{t}, 7], y: {t})\nstring S\n"), inside),
        ("structure", |t| format!("namespace a\n@t.u#tr(x: {t}, \"k y\": {t})\nstring S\n"), structure),
    ]
}

pub fn parse(c: &mut Ctx) {
    c.rule = "models in one namespace (every body variant, value trees, numbers, awkward strings, names, traits, pairs of kinds), printed as IDL by an independent printer in 10 styles with local or qualified names; statements about one shape in every combination; a trait applied to every body and to each of its members and five other names; name resolution in 72 surroundings; written node values at 7 positions; 1280 numbers and 1650 escape sequences by their grammar; documentation of up to two lines of 19 texts at 5 positions; non-trivial = the text is accepted".into();
    c.per_case = 2;
    let all = styles();
    for (n, d) in base_docs(c) {
        for (i, st) in all.iter().enumerate() {
            if i > 0 && !c.thorough && h64(&n) % (all.len() as u64 - 1) != i as u64 - 1 && !n.starts_with("kitchen") && !n.starts_with("body") {
                continue;
            }
            c.case_o(&format!("style {i}: {n}"), true, || check_doc(&d, *st));
        }
    }
    // statements about each other
    let pool: Vec<(&str, Doc)> = builder::pool().into_iter().filter_map(|(n, d)| writable(&d).map(|d| (n, d))).collect();
    let max = if c.thorough { 6 } else { 4 };
    for bits in 0u32..(1 << pool.len()) {
        let k = bits.count_ones();
        if k == 0 || k > max {
            continue;
        }
        let mut d = Doc::new("a");
        let mut name = String::from("statements");
        for (i, (n, x)) in pool.iter().enumerate() {
            if bits & (1 << i) != 0 {
                name += &format!("; {n}");
                d.uses.extend(x.uses.iter().cloned());
                d.meta.extend(x.meta.iter().cloned());
                d.defs.extend(x.defs.iter().cloned());
                d.applies.extend(x.applies.iter().cloned());
            }
        }
        c.case_o(&name, true, || check_doc(&d, PLAIN));
    }
    // numbers and escape sequences, by their grammar
    let mut lits: Vec<String> = vec![];
    for sign in ["", "-"] {
        for int in ["0", "7", "12", "9007199254740993"] {
            for frac in ["", ".0", ".50", ".125", ".1"] {
                lits.push(format!("{sign}{int}{frac}"));
                for e in ["e", "E"] {
                    for x in ["0", "1", "05", "10", "300"] {
                        lits.extend(["", "+", "-"].iter().map(|es| format!("{sign}{int}{frac}{e}{es}{x}")));
                    }
                }
            }
        }
    }
    let mut esc: Vec<String> = (' '..='~').chain("é日\u{1F600}".chars()).filter(|c| *c != 'u').map(|c| format!("\\{c}")).collect();
    let hex: Vec<char> = "0123456789abcdefABCDEF".chars().collect();
    for x in &hex {
        for y in &hex {
            esc.extend([format!("\\u00{x}{y}"), format!("\\u{x}{y}00"), format!("\\u{y}{x}{x}{y}")]);
        }
    }
    for hi in ["d800", "D800", "d801", "dbff", "DBFF", "Dbfe", "d83d", "d7ff", "E000"] {
        for lo in ["dc00", "DC00", "dc01", "dfff", "DFFF", "dFfE", "de00", "dbff", "e000", "0041"] {
            esc.push(format!("\\u{hi}\\u{lo}"));
        }
    }
    lits.extend(esc.iter().flat_map(|e| [format!("\"{e}\""), format!("\"x{e}0{e}A\""), format!("\"\"\"\n{e}y{e}\"\"\"")]));
    for (i, l) in lits.iter().enumerate() {
        for (k, (h, text, _)) in holders().into_iter().enumerate() {
            if c.thorough || k == 0 || i % 4 == k % 4 {
                c.case_o(&format!("literal {l:?} as {h}"), true, || judge(&text(l)).map_err(|e| format!("{e}\nin {}", text(l))));
            }
        }
    }
    for e in &esc {
        for (h, pre, post) in [("object key", "namespace a\n@t#u({\"", "\": 1})\nstring S\n"), ("argument name", "namespace a\n@t#u(\"", "\": 1)\nstring S\n"), ("metadata key", "metadata \"", "\" = 1\nnamespace a\n"), ("service version", "namespace a\nservice S { version: \"", "\" }\n"), ("property", "namespace a\nservice S { \"version\": \"x", "\" }\n")] {
            c.case_o(&format!("escape {e:?} in {h}"), true, || judge(&format!("{pre}{e}{post}")).map_err(|x| format!("{x}\nin {pre}{e}{post}")));
        }
    }
    // a trait given from outside to every kind of shape, to each of its members and to members it does not have
    for (i, b) in body_variants().iter().enumerate() {
        if matches!(b, Body::Unresolved) {
            continue;
        }
        let mut names: Vec<String> = ["member", "key", "value", "x", "nobody"].iter().map(|s| s.to_string()).collect();
        names.extend(b.clone().members_mut().iter().map(|m| m.name.clone()));
        names.sort();
        names.dedup();
        let mut at = vec![String::new()];
        at.extend(names.into_iter().map(|m| format!("${m}")));
        for m in at {
            for base in ["Owner", "a#Owner"] {
                for v in [None, Some(V::Int(1)), Some(V::Arr(vec![s("x"), V::Bool(false)]))] {
                    for deco in [false, true] {
                        let sh = if deco { decorate(b, "t#d", v.clone()) } else { Shape { traits: Traits::new(), body: b.clone() } };
                        let target = format!("{base}{m}");
                        let d = Doc { applies: vec![(target.clone(), "t#d".into(), v.clone())], ..Doc::new("a") }.def("Owner", sh);
                        let Some(d) = writable(&d) else { continue };
                        let value = v.as_ref().map(show_v).unwrap_or_default();
                        c.case_o(&format!("apply {target} {value} to body {i} decorated {deco}"), true, || check_doc(&d, PLAIN));
                    }
                }
            }
        }
    }
    // names in their surroundings
    for name in ["Foo", "String", "required", "list"] {
        for (cn, d) in builder::contexts(name) {
            let Some(d) = writable(&d) else { continue };
            let owners: Vec<(&str, Shape)> = vec![
                ("member", Shape { traits: Traits::new(), body: Body::Structure(st(&[mem("m", name)])) }),
                ("trait", Shape { traits: traits(&[(name, Some(V::Int(1)))]), body: Body::Simple("string".into()) }),
                ("member trait", Shape { traits: Traits::new(), body: Body::Map(Mem { traits: traits(&[(name, Some(V::Int(1)))]), ..mem("key", "String") }, mem("value", name)) }),
                ("operation", Shape { traits: Traits::new(), body: op3(Some(name), Some(name), &[name]) }),
            ];
            for (on, sh) in owners {
                let d = d.clone().def("Owner", sh);
                c.case_o(&format!("name {name} as {on}, {cn}"), true, || check_doc(&d, PLAIN));
            }
            let mut d = d;
            d.applies.push((name.to_string(), "t#u".into(), Some(V::Int(1))));
            c.case_o(&format!("name {name} as target of apply, {cn}"), true, || check_doc(&d, PLAIN));
        }
    }
    // node values
    for (pos, text, model) in holders() {
        for (t, v) in written() {
            c.case(&format!("{pos}: {t}"), true, || {
                let text = text(&t);
                let got = Spec::observe(&read(&text).map_err(|e| format!("refused: {e}\nin {text}"))?);
                diff(&norm(&model(v)), &norm(&got)).map_err(|e| format!("{e}\nin {text}"))?;
                // and the reference reader reads it so
                match idl::read(&text) {
                    Ok(r) if norm(&r.doc.resolve().unwrap()) == norm(&got) => Ok(()),
                    Ok(r) => panic!("harness: reference reader: {}", r.doc.show()),
                    Err(Stop::Refuse) => panic!("harness: the reference reader refuses {text}"),
                    Err(Stop::Free) => Ok(()),
                }
            });
        }
        for (t, v) in pinned() {
            c.case(&format!("{pos}: {t}"), true, || {
                let text = text(t);
                let got = Spec::observe(&read(&text).map_err(|e| format!("refused: {e}\nin {text}"))?);
                diff(&norm(&model(v)), &norm(&got)).map_err(|e| format!("{e}\nin {text}"))
            });
        }
    }
    // documentation comments, the whole of each line
    let docs = ["", "w", "two words", "end  ", "tab\t", "in\tside  here", "\"quoted\"", "'", "back\\slash \\n \\u0041", "// more", "a /// b", "{@x(1)}", "é日\u{1f600}", "\u{10ffff}", "nel\u{85}x\u{2028}y", "# $", "string S", "*", "\u{7f}"];
    let at: [(&str, fn(&str) -> String, fn(String) -> Spec); 5] = [
        ("shape", |t| format!("namespace a\n{t}string S\n"), |v| Spec::default().with_traits("a#S", Body::Simple("string".into()), traits(&[("smithy.api#documentation", Some(V::Str(v)))]))),
        ("second shape", |t| format!("namespace a\nstring T\n{t}@t#u(1)\noperation S {{}}\n"), |v| Spec::default().with("a#T", Body::Simple("string".into())).with_traits("a#S", op3(None, None, &[]), traits(&[("t#u", Some(V::Int(1))), ("smithy.api#documentation", Some(V::Str(v)))]))),
        ("member", |t| format!("namespace a\nstructure S {{\n{t}m: b#T\n}}\n"), |v| Spec::default().with("a#S", Body::Structure(st(&[Mem { traits: traits(&[("smithy.api#documentation", Some(V::Str(v)))]), ..mem("m", "b#T") }])))),
        ("last member", |t| format!("namespace a\nunion S {{\n@t#u n: b#T,\n{t}@t#u\nm: b#T\n}}\n"), |v| {
            let u = || ("t#u", Some(V::Obj(BTreeMap::new())));
            Spec::default().with("a#S", Body::Union(st(&[Mem { traits: traits(&[u()]), ..mem("n", "b#T") }, Mem { traits: traits(&[u(), ("smithy.api#documentation", Some(V::Str(v)))]), ..mem("m", "b#T") }])))
        }),
        ("map value", |t| format!("namespace a\nmap S {{\nkey: b#T\n{t}value: b#T\n}}\n"), |v| Spec::default().with("a#S", Body::Map(mem("key", "b#T"), Mem { traits: traits(&[("smithy.api#documentation", Some(V::Str(v)))]), ..mem("value", "b#T") }))),
    ];
    for (pos, text, model) in at {
        for w in sequences(docs.len(), if c.thorough { 3 } else { 2 }) {
            if w.is_empty() {
                continue;
            }
            for (k, lead) in ["/// ", "    /// ", "///", "\t///   "].iter().enumerate() {
                let lines: Vec<&str> = w.iter().map(|i| docs[*i]).collect();
                // the tight form reads a stroke or white space at the beginning of the text
                if k == 2 && lines.iter().any(|l| l.starts_with('/')) {
                    continue;
                }
                for end in ["\n", "\r\n"] {
                    if !c.thorough && end != "\n" && w.len() > 1 {
                        continue;
                    }
                    c.case(&format!("{pos}: documentation {lines:?} after {lead:?}, ended by {end:?}"), true, || {
                        let t: String = lines.iter().map(|l| format!("{lead}{l}{end}")).collect();
                        let text = text(&t);
                        let got = Spec::observe(&read(&text).map_err(|e| format!("refused: {e}\nin {text}"))?);
                        diff(&norm(&model(lines.join("\n"))), &norm(&got)).map_err(|e| format!("{e}\nin {text}"))
                    });
                }
            }
        }
    }
    for k in ["list", "set"] {
        c.case(&format!("traits of the member of a {k}"), true, || {
            let got = Spec::observe(&read(&format!("namespace a\n{k} L {{ @t#u member: String }}\n"))?);
            let m = Mem { name: "member".into(), target: "smithy.api#String".into(), traits: traits(&[("t#u", None)]) };
            let want = Spec::default().with("a#L", if k == "list" { Body::List(m) } else { Body::Set(m) });
            diff(&norm(&want), &norm(&got))
        });
    }
}

// ------------------------------------------------------------------------------------------------
// C15

fn is_ident(t: &str) -> bool {
    super::ids::ref_identifier(t)
}
fn unescape(t: &str) -> Option<String> {
    let text = format!("namespace a\n@t#u({t})\nstring S\n");
    let d = idl::read(&text).ok()?.doc;
    match d.defs.first()?.1.traits.get("t#u")? {
        Some(V::Str(x)) => Some(x.clone()),
        _ => None,
    }
}
/// The keys of objects inside a node value that are read with their quotes (a pinned defect of the
/// reader), read without; only for keys that have to be quoted.
fn requote(v: &V, top: bool) -> V {
    match v {
        V::Arr(a) => V::Arr(a.iter().map(|x| requote(x, false)).collect()),
        V::Obj(o) => V::Obj(
            o.iter()
                .map(|(k, x)| {
                    let k = if !top && k.len() >= 2 && k.starts_with('"') && k.ends_with('"') {
                        match unescape(k) {
                            Some(u) if !is_ident(&u) => u,
                            _ => k.clone(),
                        }
                    } else {
                        k.clone()
                    };
                    (k, requote(x, false))
                })
                .collect(),
        ),
        v => v.clone(),
    }
}
fn requote_spec(sp: &Spec) -> Spec {
    let mut o = sp.clone();
    for v in o.metadata.values_mut() {
        *v = requote(v, false);
    }
    let tr = |t: &mut Traits| {
        for v in t.values_mut().flatten() {
            *v = requote(v, true);
        }
    };
    for sh in o.shapes.values_mut() {
        tr(&mut sh.traits);
        for m in sh.body.members_mut() {
            tr(&mut m.traits);
        }
    }
    o
}
/// Without the entries that only note that a name is not defined here.
pub fn drop_open(sp: &Spec) -> Spec {
    let mut o = sp.clone();
    o.shapes.retain(|_, s| !matches!(s.body, Body::Unresolved) || !s.traits.is_empty());
    o
}
/// What the IDL can say: finite numbers, one namespace, and members only of shapes that are there.
fn sayable(sp: &Spec) -> Option<String> {
    let tr = |t: &Traits| t.values().flatten().all(finite);
    let ok = sp.metadata.values().all(finite)
        && sp.shapes.iter().all(|(id, s)| tr(&s.traits) && !id.contains('$') && s.body.members().iter().all(|m| tr(&m.traits)));
    if ok { namespace_of(sp) } else { None }
}
fn back(sp: &Spec, exact: bool) -> Result<&'static str, String> {
    let Some(ns) = sayable(sp) else { return Ok("not sayable") };
    let want = drop_open(&norm(sp));
    let mut outcome = "same";
    for m in [sp.build(), super::json::build_reversed(sp)] {
        let text = silent(|| write(&m, &ns))?.map_err(|e| format!("writing failed: {e}"))?;
        let got = silent(|| read(&text))?.map_err(|e| format!("what was written is refused: {e}\n{text}"))?;
        let got = drop_open(&norm(&Spec::observe(&got)));
        if let Err(e) = diff(&want, &got) {
            if exact || diff(&want, &requote_spec(&got)).is_err() {
                return Err(format!("{e}\nwritten as {text}"));
            }
            outcome = "same but for pinned quotes";
        }
    }
    Ok(outcome)
}

/// Every way a name can be surrounded, at the positions names are written.
fn named() -> Vec<(String, Spec)> {
    let mut out = vec![];
    let ids = ["a#Foo", "b#Foo", "b#foo", "smithy.api#Foo", "a#String", "b#String", "smithy.api#String", "smithy.api#string", "a#required", "b#required", "smithy.api#required", "a#true", "a#null", "smithy.api#true", "a.b#Foo", "a#use", "a#list"];
    let around: Vec<(&str, Body, bool)> = vec![
        ("a#Foo", Body::Simple("integer".into()), false),
        ("a#String", Body::Simple("integer".into()), false),
        ("a#required", Body::Structure(st(&[])), false),
        ("a#true", Body::Structure(st(&[])), false),
        ("b#Foo", Body::Unresolved, false),
        ("b#String", Body::Unresolved, false),
        ("b#required", Body::Unresolved, false),
        ("a#Foo", Body::Unresolved, false),
        ("a#String", Body::Unresolved, false),
        ("smithy.api#Foo", Body::Unresolved, false),
        ("b#Foo", Body::Unresolved, true),
        ("c#String", Body::Unresolved, true),
        ("a#Foo", Body::Unresolved, true),
    ];
    for x in ids {
        for bits in 0u32..(1 << around.len()) {
            if bits.count_ones() > 2 {
                continue;
            }
            let mut base = Spec::default();
            let mut clash = false;
            for (i, (id, b, tr)) in around.iter().enumerate() {
                if bits & (1 << i) != 0 {
                    clash |= base.shapes.contains_key(*id);
                    let traits = if *tr { traits(&[("t.u#tr", Some(s("v")))]) } else { Traits::new() };
                    base.shapes.insert(id.to_string(), Shape { traits, body: b.clone() });
                }
            }
            if clash {
                continue;
            }
            let x1 = Some(x);
            let tr = traits(&[(x, Some(V::Int(1)))]);
            let m = |n: &str, t: &str| Mem { name: n.into(), target: t.into(), traits: tr.clone() };
            let owners: Vec<(&str, Shape)> = vec![
                ("structure", Shape { traits: tr.clone(), body: Body::Structure(st(&[m("m", x), mem("n", x)])) }),
                ("map", Shape { traits: Traits::new(), body: Body::Map(m("key", x), m("value", x)) }),
                ("list", Shape { traits: Traits::new(), body: Body::List(m("member", x)) }),
                ("set", Shape { traits: Traits::new(), body: Body::Set(m("member", x)) }),
                ("operation", Shape { traits: Traits::new(), body: op3(x1, x1, &[x]) }),
                ("service", Shape { traits: Traits::new(), body: Body::Service(Svc { operations: strs(&[x]), resources: strs(&[x]), renames: smap(&[("b#Ren", "Named")]), ..svc("1") }) }),
                (
                    "resource",
                    Shape {
                        traits: Traits::new(),
                        body: Body::Resource(Res {
                            identifiers: smap(&[("i", x)]),
                            life: std::array::from_fn(|_| Some(x.to_string())),
                            operations: strs(&[x]),
                            collection_operations: strs(&[x]),
                            resources: strs(&[x]),
                        }),
                    },
                ),
            ];
            for (on, sh) in owners {
                let mut sp = base.clone();
                sp.shapes.insert("a#Owner".into(), sh);
                let names: Vec<&str> = base.shapes.keys().map(|k| k.as_str()).collect();
                out.push((format!("{x} in a {on} beside {names:?} {bits}"), sp));
            }
        }
    }
    out
}

/// Models that do not come back because of what the reader is held to (known_findings.txt).
fn pinned_back() -> Vec<(&'static str, Spec)> {
    let o = obj(&[("a b", V::Int(1))]);
    vec![
        ("a nested key that is no identifier, in a trait", at("shape", Some(V::Arr(vec![o.clone()])))),
        ("a key that is no identifier, in metadata", Spec { metadata: BTreeMap::from([("k".to_string(), o)]), ..Default::default() }),
    ]
}

pub fn written_back(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 4;
    c.rule = "every model of the shared family that has one namespace and finite numbers (every kind, every value tree to three nodes (four thorough) at every position, awkward strings at every textual position, extreme numbers, names that look like syntax, pairs of kinds, a model with everything), and 17 names at every position of seven kinds beside every pair of 13 surrounding shapes (same names defined, imported, unresolved, of the prelude), written as IDL from two assembly orders and parsed back; non-trivial = the model has a shape".into();
    for (name, sp) in super::iofam::not_finite() {
        c.case(&format!("no form: {name}"), true, || match write(&sp.build(), "a.b") {
            Ok(text) => Err(format!("written as {text}")),
            Err(_) => Ok(()),
        });
    }
    for (name, sp) in models(c.thorough).into_iter().chain(named()) {
        c.case_o(&name, !sp.shapes.is_empty(), || back(&sp, false));
    }
    for (name, sp) in pinned_back() {
        c.case_o(name, true, || back(&sp, true));
    }
    let k = kitchen();
    for seed in 0..(if c.thorough { 400u64 } else { 40 }) {
        let k = &k;
        c.case_o(&format!("kitchen sink under hash seed {seed}"), true, || with_seed(seed + 2, || back(k, false)));
    }
}

// ------------------------------------------------------------------------------------------------
// C16

/// What may stand in a gap.
fn fillers(g: Gap) -> Vec<&'static str> {
    let any = [" ", "\n", "\t", ",", "\r\n", "//\n", "// c\n", " // @x \"{[(,)]}\"\n", "\n\n", ",,", " , ", "\t\n  ", "\n// a\n// b\r\n", " \t,\r\n//:=#$\n,", "//\té \u{7f}\u{85}\u{2028}\u{ffff}\u{1f600}\u{10ffff}\n", "//// no documentation?\n"];
    // a fourth stroke starts a documentation comment as well, which does not go everywhere
    let any = &any[..any.len() - 1];
    match g {
        Gap::Tight => vec![""],
        Gap::Opt => [""].iter().chain(any).copied().collect(),
        Gap::Req => any.to_vec(),
        Gap::Br => vec!["\n", "\r\n", " \n", ",\n", " // c\n", "\n\n", "\n\t ,", "// c\r\n", "\n// c\n\n"],
        Gap::Doc => vec!["\n", "\r\n", "\n  ", "\n\t", "\n\n", "\n// c\n", "\n,"],
    }
}
fn laid_out(d: &Doc, text: &str) -> Result<&'static str, String> {
    match idl::read(text) {
        Ok(r) => {
            if r.lax {
                panic!("harness: the layout takes liberties: {text}");
            }
            if r.doc.resolve() != d.resolve() {
                panic!("harness: the reference reader reads the layout as something else: {text}");
            }
        }
        Err(Stop::Refuse) => panic!("harness: the reference reader refuses the layout: {text}"),
        Err(Stop::Free) => panic!("harness: the reference reader does not judge the layout: {text}"),
    }
    let o = judge(text).map_err(|e| format!("{e}\nin {text}"))?;
    if !["accepted", "accepted, pinned reading", "contradiction refused"].contains(&o) {
        return Err(format!("{o}\nin {text}"));
    }
    Ok(o)
}
/// Small documents that have every token and every gap of the grammar.
fn layout_docs(thorough: bool) -> Vec<(String, Doc)> {
    let mut out = vec![];
    let tv = obj(&[("a", V::Int(-1)), ("b c", V::Arr(vec![V::Float(F(1.5)), V::None, V::Bool(true)])), ("d", obj(&[("e", s("x y"))]))]);
    let tr = || traits(&[("t.u#tr", Some(tv.clone())), ("required", None), ("documentation", Some(s("some words\nmore"))), ("length", Some(obj(&[("min", V::Int(1))]))), ("tags", Some(V::Arr(vec![s("x"), s("y")])))]);
    let some = || traits(&[("required", None), ("documentation", Some(s("words"))), ("t.u#tr", Some(V::Arr(vec![])))]);
    for (i, b) in body_variants().into_iter().enumerate() {
        if !thorough && i % 5 != 0 && !matches!(b, Body::Map(..) | Body::List(_) | Body::Set(_) | Body::Service(_)) {
            continue;
        }
        let sp = Spec::default().with("a#S", b.clone());
        let mut d = doc_of(&sp, "a", true);
        for (_, sh) in d.defs.iter_mut() {
            if i % 3 == 0 {
                sh.traits = some();
            }
            for (j, m) in sh.body.members_mut().into_iter().enumerate() {
                if (i + j) % 2 == 0 {
                    m.traits = some();
                }
            }
        }
        out.push((format!("body {}", sp.show()), norm_doc(&d)));
    }
    let mut all = Doc::new("a.b");
    all.meta = vec![("k".into(), tv.clone()), ("l m".into(), s("text")), ("n".into(), V::Arr(vec![V::Arr(vec![]), V::Obj(BTreeMap::new())]))];
    all.uses = vec!["c#D".into(), "e.f#G".into()];
    all.defs.push(("S".into(), Shape { traits: tr(), body: Body::Simple("string".into()) }));
    all.defs.push(("T".into(), Shape { traits: some(), body: Body::Structure(st(&[Mem { name: "m".into(), target: "S".into(), traits: tr() }, Mem { name: "n".into(), target: "c#D".into(), traits: Traits::new() }])) }));
    all.defs.push(("M".into(), Shape { traits: Traits::new(), body: Body::Map(Mem { name: "key".into(), target: "S".into(), traits: some() }, Mem { name: "value".into(), target: "D".into(), traits: some() }) }));
    all.applies = vec![("S".into(), "t.u#app".into(), Some(tv.clone())), ("T$m".into(), "sensitive".into(), None), ("x.y#Z".into(), "t#u".into(), Some(V::Int(7)))];
    out.push(("all statements".into(), norm_doc(&all)));
    for k in 0..3 {
        let mut d = Doc::new("a");
        match k {
            0 => d.meta = vec![("k".into(), V::Int(1))],
            1 => d.uses = vec!["b#C".into()],
            _ => {
                d.ns = String::new();
                d.meta = vec![("k".into(), V::Int(1)), ("l".into(), V::Int(1))];
            }
        }
        out.push((format!("without shapes {k}"), d));
    }
    out
}

pub fn layouts(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 2;
    c.rule = "documents covering every production of the grammar, in 10 styles: every gap between two tokens filled in every one of up to 15 ways (white space, line ends, commas, comments), one gap at a time, all gaps alike, and every pair of gaps in short documents (thorough: in all); every order of up to five statements, and of four traits on shapes and members; non-trivial = the layout differs from the usual one".into();
    let all = styles();
    for (n, d) in layout_docs(c.thorough) {
        for (k, st) in all.iter().enumerate() {
            if !c.thorough && k > 0 && n.starts_with("body") && h64(&n) % (all.len() as u64 - 1) != k as u64 - 1 {
                continue;
            }
            let toks = print(&d, *st).toks();
            let base = |g: Gap| usual(g).to_string();
            for i in 0..toks.len() {
                for f in fillers(toks[i].1) {
                    if f == usual(toks[i].1) {
                        continue;
                    }
                    c.case_o(&format!("{n}; style {k}; gap {i} {f:?}"), true, || laid_out(&d, &layout(&toks, &|j, g| if i == j { f.to_string() } else { base(g) })));
                }
            }
            // before the first token
            for f in fillers(Gap::Opt) {
                c.case_o(&format!("{n}; style {k}; before {f:?}"), true, || laid_out(&d, &format!("{f}{}", layout(&toks, &|_, g| base(g)))));
            }
            // all alike
            let most = fillers(Gap::Opt).len();
            for x in 0..most {
                c.case_o(&format!("{n}; style {k}; all gaps {x}"), true, || {
                    laid_out(
                        &d,
                        &layout(&toks, &|_, g| {
                            let f = fillers(g);
                            f[x % f.len()].to_string()
                        }),
                    )
                });
            }
            // two gaps
            if toks.len() <= if c.thorough { 40 } else { 14 } {
                for i in 0..toks.len() {
                    for j in i + 1..toks.len() {
                        let (fi, fj) = (fillers(toks[i].1), fillers(toks[j].1));
                        for (x, a) in fi.iter().enumerate() {
                            for (y, b) in fj.iter().enumerate() {
                                if !c.thorough && (x + y) % 4 != 0 {
                                    continue;
                                }
                                c.case_o(&format!("{n}; style {k}; gaps {i} {a:?} {j} {b:?}"), true, || {
                                    laid_out(
                                        &d,
                                        &layout(&toks, &|p, g| {
                                            if p == i {
                                                a.to_string()
                                            } else if p == j {
                                                b.to_string()
                                            } else {
                                                base(g)
                                            }
                                        }),
                                    )
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    // the order of statements
    let pool: Vec<(&str, Doc)> = builder::pool().into_iter().filter_map(|(n, d)| writable(&d).map(|d| (n, d))).collect();
    let max = if c.thorough { 5 } else { 4 };
    for bits in 0u32..(1 << pool.len()) {
        let k = bits.count_ones();
        if k < 2 || k > max {
            continue;
        }
        let mut d = Doc::new("a");
        let mut name = String::from("order");
        for (i, (n, x)) in pool.iter().enumerate() {
            if bits & (1 << i) != 0 {
                name += &format!("; {n}");
                d.uses.extend(x.uses.iter().cloned());
                d.meta.extend(x.meta.iter().cloned());
                d.defs.extend(x.defs.iter().cloned());
                d.applies.extend(x.applies.iter().cloned());
            }
        }
        c.case_o(&name, true, || {
            let p = print(&d, PLAIN);
            let Ok(want) = d.resolve() else { return Ok("contradiction") };
            if case_clash(&d) {
                return Ok("not judged");
            }
            let mut seen: Option<Spec> = None;
            for us in perms(p.uses.len()) {
                for ss in perms(p.shapes.len()) {
                    let mut t: Toks = p.control.iter().chain(&p.meta).chain(&p.namespace).flatten().cloned().collect();
                    t.extend(us.iter().flat_map(|i| p.uses[*i].iter().cloned()));
                    t.extend(ss.iter().flat_map(|i| p.shapes[*i].iter().cloned()));
                    let text = layout(&t, &|_, g| usual(g).to_string());
                    let o = judge(&text).map_err(|e| format!("{e}\nin {text}"))?;
                    if !["accepted", "accepted, pinned reading"].contains(&o) {
                        return Err(format!("{o}\nin {text}"));
                    }
                    let got = sort_arrays(&norm(&Spec::observe(&read(&text)?)));
                    if let Some(s) = &seen {
                        diff(s, &got).map_err(|e| format!("depends on the order: {e}\nin {text}"))?;
                    }
                    let _ = &want;
                    seen = Some(got);
                }
            }
            Ok("same in all orders")
        });
    }
    // the order of metadata statements, and of traits
    let meta = [("metadata a = 1\n", "a"), ("metadata b = [x, y]\n", "b"), ("metadata \"c d\" = {e: 1}\n", "c d"), ("metadata e = null\n", "e")];
    let tr = ["@a#b(1) ", "@required ", "@c#d(x: 1, y: [2]) ", "@tags([x, y]) "];
    let orders = perms(4);
    let read_spec = |t: &str| -> Result<Spec, String> { Ok(norm(&Spec::observe(&read(t).map_err(|e| format!("{e}\nin {t}"))?))) };
    let forms: [(&str, fn(&str) -> String); 6] = [
        ("metadata", |x| format!("{x}namespace a\nstring S\n")),
        ("shape", |x| format!("namespace a\n{x}string S\n")),
        ("structure member", |x| format!("namespace a\nstructure S {{ {x}m: String, n: String }}\n")),
        ("last union member", |x| format!("namespace a\nunion S {{ n: String, {x}m: String }}\n")),
        ("map key", |x| format!("namespace a\nmap S {{ {x}key: String, value: String }}\n")),
        ("operation", |x| format!("namespace a\n{x}operation S {{ input: I }}\n")),
    ];
    for (n, f) in forms {
        for o in &orders {
            c.case(&format!("order of {n} {o:?}"), true, || {
                let parts: Vec<&str> = if n == "metadata" { meta.iter().map(|m| m.0).collect() } else { tr.to_vec() };
                let usual: String = parts.concat();
                let other: String = o.iter().map(|i| parts[*i]).collect();
                judge(&f(&other)).map_err(|e| format!("{e}\nin {}", f(&other)))?;
                diff(&read_spec(&f(&usual))?, &read_spec(&f(&other))?)
            });
        }
    }
}

// ------------------------------------------------------------------------------------------------
// C17

const TOKENS: [&str; 52] = [
    "{", "}", "[", "]", "(", ")", ":", ",", "=", "@", "$", "#", ".", "/", "//", "///", "\"", "\"\"\"", "\\", "-", "0", "1", "1.5", "1e3", "true", "null", "a", "a#S", "a.b#S$m", "a#", "#S", "\"x\"", "\"\"\"x\"\"\"", "namespace",
    "use", "apply", "metadata", "structure", "string", "list", "member", "service", "operation", "resource", "version", "@t#u", "@a(1)", "é", "\u{0}", "\n", "\r", "_",
];

/// Literals at the edges of their productions.
fn literals() -> Vec<String> {
    let mut v: Vec<String> = [
        "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999", "-99999999999999999999", "340282366920938463463374607431768211456", "00", "01", "-01", "-0", "+1", "--1", "- 1", "1_000", "0x1F", "0b1", "1.", ".5", "-.5", "1e", "1e+", "1E-", "1e1.5",
        "1.5.2", "1e5e5", "1e308", "1e309", "-1e309", "1e999", "1e-400", "1.7976931348623159e308", "1e99999999999999999999", "1E309", "-1.5E+309", "1f", "1L", "NaN", "Infinity", "-Infinity", "inf", "True", "TRUE", "Null", "nil", "none", "'x'", "`x`", "\"", "\"x", "x\"", "\"\"\"", "\"\"\"\"", "\"\"\"\"\"",
        "\"\"\"\"\"\"", "\"\"\"\n\"\"\"", "\"\"\"\n\n\"\"\"", "\"\"\"x\"\"\"", "\"\"\"\n\"\"\"\"", "\"\"\"\n\\\"\"\"", "\"\"\"\n\\", "\"a\nb\"", "\"a\rb\"", "\"a\tb\"", "\"\\\"", "\"\\\nx\"", "\"\\x\"", "\"\\0\"", "\"\\x41\"", "\"\\u\"", "\"\\u0\"", "\"\\u00\"", "\"\\u004\"", "\"\\u00g1\"",
        "\"\\ud800\"", "\"\\udc00\"", "\"\\ud800\\ud800\"", "\"\\udc00\\ud800\"", "\"\\ud800x\"", "\"\\uD83D\\n\"", "\"\\ud83d\\u0041\"", "\"\\uffff\"", "\"\\U0041\"", "\"\\u{41}\"", "\"\\u{110000}\"", "[", "]", "[,]", "[,,1]", "[1,,2]", "[1;2]", "[1 2", "[1]]", "{,}", "{a}", "{a:}", "{:1}",
        "{1: 2}", "{true}", "{a: 1, a: 2}", "{a: 1, \"a\": 2}", "{\"\": 1}", "{\"a\" 1}", "{a: 1}}", "{a.b: 1}", "{a#b: 1}", "{a = 1}", "a#", "#a", "a.#b", ".a#b", "a..b#c", "a#b$", "a#b$c$d", "a#b#c", "a$b#c", "a.b", "a b#c", "$a", "a$b", "_", "__", "_1", "1a", "a-b", "é", "a#é", "",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [19usize, 20, 39, 100, 309, 400, 5000] {
        v.push("9".repeat(n));
        v.push(format!("0.{}", "3".repeat(n)));
        v.push(format!("\"{}\"", "x".repeat(n)));
        v.push(format!("\"{}\"", "\\n".repeat(n)));
        v.push("y".repeat(n));
        v.push(format!("a{}#b", ".a".repeat(n)));
        v.push(format!("1e{n}"));
        v.push(format!("1{}e-{n}", "0".repeat(n)));
    }
    v
}

pub fn damaged(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 1;
    c.rule = "documents covering every production of the grammar: every token deleted, doubled, swapped with the next, and replaced by or preceded by each of 52 tokens; every truncation; every character deleted and replaced by each of 14; every sequence of up to three (four thorough) tokens of 52 (24) after five beginnings; nesting to 200 on an ordinary stack; every body of up to three (four) members and every property with every kind of value, in pairs (threes); about 180 literals at the edges of their productions at 31 positions; each read in silence, without panic, and judged by the reference reader; non-trivial = the reference has a verdict".into();
    let docs = layout_docs(c.thorough);
    let rich = *styles().last().unwrap();
    let go = |c: &mut Ctx, name: String, text: String| {
        c.case_o(&name, true, || judge(&text).map_err(|e| format!("{e}\nin {text}")));
    };
    for (n, d) in &docs {
        for (k, sty) in [PLAIN, rich].into_iter().enumerate() {
            if k == 1 && !c.thorough && h64(n) % 3 != 0 && n.starts_with("body") {
                continue;
            }
            let toks = print(d, sty).toks();
            let text_of = |t: &[(String, Gap)]| layout(&t.to_vec(), &|_, g| usual(g).to_string());
            for i in 0..toks.len() {
                let mut t = toks.clone();
                t.remove(i);
                go(c, format!("{n}; {k}; token {i} deleted"), text_of(&t));
                let mut t = toks.clone();
                t.insert(i, toks[i].clone());
                go(c, format!("{n}; {k}; token {i} doubled"), text_of(&t));
                if i + 1 < toks.len() {
                    let mut t = toks.clone();
                    t.swap(i, i + 1);
                    go(c, format!("{n}; {k}; token {i} swapped"), text_of(&t));
                }
                for (x, tok) in TOKENS.iter().enumerate() {
                    let mut t = toks.clone();
                    t[i].0 = tok.to_string();
                    go(c, format!("{n}; {k}; token {i} replaced by {tok:?}"), text_of(&t));
                    if c.thorough || (i + x) % 3 == 0 {
                        let mut t = toks.clone();
                        t.insert(i, (tok.to_string(), Gap::Req));
                        go(c, format!("{n}; {k}; token {i} preceded by {tok:?}"), text_of(&t));
                    }
                }
            }
            let text = text_of(&toks);
            let chars: Vec<char> = text.chars().collect();
            if !c.thorough && h64(n) % 4 != 0 && n.starts_with("body") {
                continue;
            }
            for i in 0..chars.len() {
                let cut: String = chars[..i].iter().collect();
                let rest: String = chars[i + 1..].iter().collect();
                go(c, format!("{n}; {k}; cut at {i}"), cut.clone());
                go(c, format!("{n}; {k}; character {i} deleted"), format!("{cut}{rest}"));
                for ch in ['{', '}', '"', '\\', ':', '@', '(', ' ', '\n', '/', '0', '#', 'é', '\u{0}'] {
                    go(c, format!("{n}; {k}; character {i} is {ch:?}"), format!("{cut}{ch}{rest}"));
                }
            }
        }
    }
    // odd literals
    for l in literals() {
        let short: String = l.chars().take(60).collect();
        let l_name = if short == l { l.clone() } else { format!("{short}... ({} characters)", l.chars().count()) };
        for (h, text, _) in holders() {
            go(c, format!("literal {l_name} as {h}"), text(&l));
        }
        for (h, pre, post) in [
            ("version", "namespace a\nservice S { version: ", " }\n"),
            ("operations", "namespace a\nservice S { version: \"1\", operations: [", "] }\n"),
            ("rename", "namespace a\nservice S { version: \"1\", rename: {a#b: ", "} }\n"),
            ("rename key", "namespace a\nservice S { version: \"1\", rename: {", ": x} }\n"),
            ("input", "namespace a\noperation S { input: ", " }\n"),
            ("errors", "namespace a\noperation S { errors: ", " }\n"),
            ("identifiers", "namespace a\nresource S { identifiers: {i: ", "} }\n"),
            ("identifiers key", "namespace a\nresource S { identifiers: {", ": I} }\n"),
            ("create", "namespace a\nresource S { create: ", " }\n"),
            ("property", "namespace a\nresource S { ", ": a#b }\n"),
            ("control", "$version: ", "\nnamespace a\n"),
            ("control name", "$", ": \"1.0\"\nnamespace a\n"),
            ("metadata key", "metadata ", " = 1\nnamespace a\n"),
            ("namespace", "namespace ", "\nstring S\n"),
            ("use", "namespace a\nuse ", "\nstring S\n"),
            ("shape name", "namespace a\nstring ", "\n"),
            ("target", "namespace a\nlist S { member: ", " }\n"),
            ("member name", "namespace a\nstructure S { ", ": T }\n"),
            ("trait name", "namespace a\n@", "\nstring S\n"),
            ("trait body", "namespace a\n@t#u(", "\nstring S\n"),
            ("apply target", "namespace a\napply ", " @t#u\n"),
            ("keyword", "namespace a\n", " S\n"),
            ("comment", "namespace a\n// ", "\nstring S\n"),
            ("documentation", "namespace a\n/// ", "\nstring S\n"),
        ] {
            go(c, format!("literal {l_name} as {h}"), format!("{pre}{l}{post}"));
        }
    }
    // every body of up to three members or properties
    let members = [
        "member: String", "key: String", "value: a#T", "other: b.c#U", "Member: String", "KEY: String", "@t#u member: T", "@t#u(1) key: T", "/// words\n value: T", "@required other2: T", "member: a", "key: a#T$m", "value: \"T\"", "member: [T]", "member", ": String", "member: String = 1", "apply", "@t#u",
    ];
    let n_members = if c.thorough { 4 } else { 3 };
    for kind in ["list", "set", "map", "structure", "union"] {
        for w in sequences(members.len(), n_members) {
            if w.len() == 4 && w.iter().any(|i| *i > 9) {
                continue;
            }
            let b: Vec<&str> = w.iter().map(|i| members[*i]).collect();
            go(c, format!("{kind} of {b:?}"), format!("namespace a\n{kind} S {{\n{}\n}}\n", b.join(",\n")));
        }
    }
    let targets = ["A", "b#A", "\"A\"", "[A]", "[A, b#B]", "[]", "{}", "{x: A}", "{b#x: y}", "{\"b#x\": \"y\"}", "1", "null", "true", "\"1\"", "\"\"", "[[A]]", "[{x: A}]", "{x: [A]}", "[1]", "b#A$m", "[b#A$m]", "[\"a b\"]", "\"a b\""];
    let keys = ["version", "operations", "resources", "rename", "input", "output", "errors", "identifiers", "create", "put", "read", "update", "delete", "list", "collectionOperations", "renames", "error", "member", "Version", "\"operations\"", "\"version\"", "\"in put\""];
    for kind in ["service", "operation", "resource", "structure", "map"] {
        let lead = if kind == "service" { "version: \"1\",\n" } else { "" };
        for k in keys {
            for t in targets {
                for lead in if lead.is_empty() { vec![""] } else { vec!["", lead] } {
                    go(c, format!("{kind} with {lead:?} {k}: {t}"), format!("namespace a\n{kind} S {{\n{lead}{k}: {t}\n}}\n"));
                }
            }
        }
        let pairs = ["version: \"1\"", "operations: [A]", "resources: [B]", "rename: {b#x: y}", "input: A", "output: B", "errors: [A, B]", "identifiers: {x: A}", "create: A", "put: A", "read: A", "update: A", "delete: A", "list: B", "collectionOperations: [A]", "other: A", "version: 1", "operations: A", "input: [A]", "Input: A"];
        for w in sequences(pairs.len(), if c.thorough { 3 } else { 2 }) {
            let b: Vec<&str> = w.iter().map(|i| pairs[*i]).collect();
            go(c, format!("{kind} of {b:?}"), format!("namespace a\n{kind} S {{\n{}\n}}\n", b.join(",\n")));
        }
    }
    // short texts
    let starts = ["", "namespace a\n", "namespace a\nstring S\n", "metadata k = ", "namespace a\nstructure S {", "namespace a\n@t#u("];
    for (b, start) in starts.iter().enumerate() {
        let max = if c.thorough && b < 2 { 4 } else if c.thorough || b < 3 { 3 } else { 2 };
        let pool: &[&str] = if max == 4 { &TOKENS[..24] } else { &TOKENS };
        for w in sequences(pool.len(), max) {
            if w.is_empty() {
                continue;
            }
            for glue in [" ", ""] {
                if glue.is_empty() && w.len() == max && !c.thorough {
                    continue;
                }
                let t: Vec<&str> = w.iter().map(|i| pool[*i]).collect();
                let text = format!("{start}{}", t.join(glue));
                go(c, format!("text {text:?}"), text);
            }
        }
    }
    // nesting
    for depth in [10usize, 50, 100, 200] {
        for (n, open, inner, close) in [("arrays", "[", "1", "]"), ("objects", "{a: ", "1", "}"), ("open arrays", "[", "", ""), ("open objects", "{a:", "", "")] {
            for (h, pre, post) in [("metadata", "metadata k = ", "\n"), ("trait", "namespace a\n@t#u(", ")\nstring S\n"), ("property", "namespace a\noperation S { input: ", " }\n")] {
                c.case(&format!("{n} nested {depth} deep in a {h}"), true, || {
                    let text = format!("{pre}{}{inner}{}{post}", open.repeat(depth), close.repeat(depth));
                    let ok = std::thread::Builder::new().stack_size(2 << 20).spawn(move || read(&text).is_ok()).unwrap().join().map_err(|_| "panicked".to_string())?;
                    let want = !close.is_empty() && h != "property";
                    if ok != want {
                        return Err(format!("accepted: {ok}, expected {want}"));
                    }
                    Ok(())
                });
            }
        }
    }
}
