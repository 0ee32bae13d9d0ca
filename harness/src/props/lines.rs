//! C18: the line-oriented form.
use super::iofam::*;
use crate::kit::gen::*;
use crate::kit::order::with_seed;
use crate::kit::run::{h64, Ctx};
use crate::kit::spec::*;
use atelier_core::io::lines::{make_line_oriented_form, LineOrientedWriter};
use atelier_core::io::ModelWriter;
use atelier_core::model::Model;
use std::collections::HashMap;

/// The order of these lists is not part of the form.
fn unordered(sp: &Spec) -> Spec {
    let mut o = sp.clone();
    for sh in o.shapes.values_mut() {
        match &mut sh.body {
            Body::Service(s) => {
                s.operations.sort();
                s.resources.sort();
            }
            Body::Operation(x) => x.errors.sort(),
            Body::Resource(r) => {
                r.operations.sort();
                r.collection_operations.sort();
                r.resources.sort();
            }
            _ => {}
        }
    }
    o
}

/// The documented format, for what its documentation settles: `None` where it leaves the spelling open
/// (keys that are not identifiers, floating point numbers).
fn documented(sp: &Spec) -> Option<Vec<String>> {
    fn plain_key(k: &str) -> bool {
        super::ids::ref_identifier(k)
    }
    fn value(p: String, v: &V, out: &mut Vec<String>) -> bool {
        match v {
            V::None => out.push(format!("{p}()")),
            V::Bool(b) => out.push(format!("{p}{b}")),
            V::Int(i) => out.push(format!("{p}{i}")),
            V::Float(F(f)) => {
                if f.fract() == 0.0 || f.abs() < 1e-4 || f.abs() >= 1e15 {
                    return false;
                }
                out.push(format!("{p}{f}"));
            }
            V::Str(s) => out.push(format!("{p}\"{s}\"")),
            V::Arr(a) if a.is_empty() => out.push(format!("{p}[]")),
            V::Arr(a) => return a.iter().enumerate().all(|(i, x)| value(format!("{p}[{i}]="), x, out)),
            V::Obj(o) if o.is_empty() => out.push(format!("{p}{{}}")),
            V::Obj(o) => return o.iter().all(|(k, x)| plain_key(k) && value(format!("{p}{{{k}}}="), x, out)),
        }
        true
    }
    fn tr(p: &str, t: &Traits, out: &mut Vec<String>) -> bool {
        t.iter().all(|(id, v)| match v {
            None => {
                out.push(format!("{p}::trait::{id}"));
                true
            }
            Some(v) => value(format!("{p}::trait::{id}<="), v, out),
        })
    }
    let mut out = vec![];
    for (k, v) in &sp.metadata {
        if !plain_key(k) || !value(format!("meta::{k}<="), v, &mut out) {
            return None;
        }
    }
    for (id, sh) in &sp.shapes {
        let p = format!("{}::{id}", sh.body.kind());
        out.push(p.clone());
        if !tr(&p, &sh.traits, &mut out) {
            return None;
        }
        for m in sh.body.members() {
            let q = format!("{p}::{}", m.name);
            out.push(format!("{q}=>{}", m.target));
            if !tr(&q, &m.traits, &mut out) {
                return None;
            }
        }
        let mut to = |n: &str, xs: &[String]| out.extend(xs.iter().map(|x| format!("{p}::{n}=>{x}")));
        match &sh.body {
            Body::Service(s) => {
                to("operation", &s.operations);
                to("resource", &s.resources);
                if s.version.contains(|c: char| c.is_control() || !c.is_ascii() || "\"\\'".contains(c)) {
                    return None;
                }
                out.push(format!("{p}::version<=\"{}\"", s.version));
                out.extend(s.renames.iter().map(|(k, v)| format!("{p}::rename::{k}<={v}")));
            }
            Body::Operation(o) => {
                to("input", o.input.as_slice());
                to("output", o.output.as_slice());
                to("error", &o.errors);
            }
            Body::Resource(r) => {
                for (n, x) in LIFE.iter().zip(&r.life) {
                    to(n, x.as_slice());
                }
                to("operation", &r.operations);
                to("collection_operation", &r.collection_operations);
                to("resource", &r.resources);
                out.extend(r.identifiers.iter().map(|(k, v)| format!("{p}::identifier::{k}=>{v}")));
            }
            _ => {}
        }
    }
    out.sort();
    Some(out)
}

fn text(m: &Model) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    LineOrientedWriter::default().write(&mut b, m).map_err(|e| format!("writer: {e}"))?;
    Ok(b)
}

pub fn canonical(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 4;
    c.rule = "every model of the shared family, every key of up to three separators of the form itself in metadata and (nested) objects, and every change of one detail (kind, member, name, target, property, list element, trait, value, metadata) of twelve rich models: the lines are sorted, the writer writes these lines, they are the same when the model is assembled in reverse order and under other hash seeds, they are the documented ones where the documentation settles their spelling, and no other model of the whole family has the same lines; non-trivial = the model has a shape".into();
    let mut all = models(c.thorough);
    // keys made of the separators of the form
    let toks = ["a", "{", "}", "=", "<", "\"", "[0]", "::", "()", "\\"];
    for k in strings(&toks, 3) {
        let o = obj(&[(&k, V::Int(1))]);
        all.push((format!("separators {k:?} in object"), at("shape", Some(o.clone()))));
        all.push((format!("separators {k:?} in metadata"), Spec { metadata: [(k.clone(), V::Int(1))].into(), ..at("metadata", None) }));
        if k.chars().count() <= 4 {
            for k2 in strings(&toks, 1) {
                all.push((format!("separators {k:?} {k2:?} nested"), at("shape", Some(obj(&[(&k, obj(&[(&k2, V::Int(1))]))])))));
                all.push((format!("separators {k:?} {k2:?} in array"), at("shape", Some(obj(&[(&k, V::Arr(vec![obj(&[(&k2, V::Int(1))])]))])))));
            }
        }
    }
    let mut k = 0;
    for base in rich() {
        for (what, sp) in neighbours(&base) {
            all.push((format!("rich {k}: {what}"), sp));
        }
        k += 1;
    }
    for (name, sp) in &all {
        c.case_o(name, !sp.shapes.is_empty(), || {
            let m = sp.build();
            let lines = make_line_oriented_form(&m);
            if lines.windows(2).any(|w| w[0] > w[1]) {
                return Err("the lines are not sorted".into());
            }
            if make_line_oriented_form(&super::json::build_reversed(sp)) != lines {
                return Err("the lines depend on the order the model was assembled in".into());
            }
            let whole: String = lines.iter().map(|l| format!("{l}\n")).collect();
            if text(&m)? != whole.into_bytes() {
                return Err("the writer does not write these lines".into());
            }
            match documented(sp) {
                Some(want) if want != lines => {
                    let miss: Vec<&String> = want.iter().filter(|x| !lines.contains(x)).collect();
                    let more: Vec<&String> = lines.iter().filter(|x| !want.contains(x)).collect();
                    Err(format!("not the documented lines: without {miss:?}, with {more:?}"))
                }
                Some(_) => Ok("as documented"),
                None => Ok("spelling open"),
            }
        });
    }
    // no two models of the family share their lines
    if c.only.as_ref().map_or(true, |o| o.starts_with("pair: ")) {
        let mut seen: HashMap<Vec<String>, (usize, Spec)> = HashMap::new();
        for (i, (name, sp)) in all.iter().enumerate() {
            let Ok(lines) = crate::kit::run::guard(|| make_line_oriented_form(&sp.build())) else { continue };
            let h = h64(&lines.join("\u{0}"));
            if c.shards > 1 && c.only.is_none() && h % c.shards != c.shard {
                continue;
            }
            let u = unordered(sp);
            match seen.get(&lines) {
                None => {
                    seen.insert(lines, (i, u));
                }
                Some((_, v)) if *v == u => c.note("same model again"),
                Some((j, v)) => {
                    let t = format!("pair: {} / {}", all[*j].0, name);
                    c.fail(&t, format!("two different models have the same lines: {} and {}", v.show(), u.show()));
                }
            }
        }
        c.transitions += seen.len() as u64;
    }
    let k = kitchen();
    for seed in 0..(if c.thorough { 400u64 } else { 60 }) {
        let k = &k;
        c.case_o(&format!("kitchen sink under hash seed {seed}"), true, || {
            let base = make_line_oriented_form(&k.build());
            let (a, b) = with_seed(seed + 2, || (make_line_oriented_form(&k.build()), make_line_oriented_form(&super::json::build_reversed(k))));
            if a != base || b != base {
                return Err("the lines depend on the internal order of the model".into());
            }
            Ok("same under every seed")
        });
    }
}
