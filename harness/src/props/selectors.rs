//! C27 (selector text), C28 (selecting by shape type) and C34 (selector builders).
use super::fam::plain_bodies;
use crate::kit::gen::sequences;
use crate::kit::order::with_seed;
use crate::kit::run::{silent, Ctx};
use crate::kit::spec::{ident, sid, Body, Spec, SIMPLE};
use atelier_core::builder::selector::{AttributeBuilder, ScopedAttributeBuilder, SelectorBuilder};
use atelier_core::model::selector::*;
use atelier_core::model::values::Number;
use atelier_query::evaluate::query;
use atelier_query::Projection;
use atelier_smithy::parser::parse_selector;
use std::collections::BTreeSet;
use std::str::FromStr;

pub const TYPES: [(&str, ShapeType); 26] = [
    ("*", ShapeType::Any),
    ("number", ShapeType::Number),
    ("simpleType", ShapeType::SimpleType),
    ("collection", ShapeType::Collection),
    ("blob", ShapeType::Blob),
    ("boolean", ShapeType::Boolean),
    ("document", ShapeType::Document),
    ("string", ShapeType::String),
    ("integer", ShapeType::Integer),
    ("byte", ShapeType::Byte),
    ("short", ShapeType::Short),
    ("long", ShapeType::Long),
    ("float", ShapeType::Float),
    ("double", ShapeType::Double),
    ("bigDecimal", ShapeType::BigDecimal),
    ("bigInteger", ShapeType::BigInteger),
    ("timestamp", ShapeType::Timestamp),
    ("list", ShapeType::List),
    ("set", ShapeType::Set),
    ("map", ShapeType::Map),
    ("structure", ShapeType::Structure),
    ("union", ShapeType::Union),
    ("service", ShapeType::Service),
    ("operation", ShapeType::Operation),
    ("resource", ShapeType::Resource),
    ("member", ShapeType::Member),
];
pub const OPS: [(&str, Comparator); 14] = [
    ("=", Comparator::StringEqual),
    ("!=", Comparator::StringNotEqual),
    ("^=", Comparator::StringStartsWith),
    ("$=", Comparator::StringEndsWith),
    ("*=", Comparator::StringContains),
    ("?=", Comparator::StringExists),
    (">", Comparator::NumberGreaterThan),
    (">=", Comparator::NumberGreaterOrEqual),
    ("<", Comparator::NumberLessThan),
    ("<=", Comparator::NumberLessOrEqual),
    ("{=}", Comparator::ProjectionEqual),
    ("{!=}", Comparator::ProjectionNotEqual),
    ("{<}", Comparator::ProjectionSubset),
    ("{<<}", Comparator::ProjectionProperSubset),
];

// ------------------------------------------------------------------- the reference's own trees

#[derive(Clone, Debug, PartialEq)]
enum A {
    Text(String),
    Int(i64),
    Flt(f64),
    Id(String),
    Abs(String),
}
#[derive(Clone, Debug, PartialEq)]
enum Seg {
    V(A),
    F(String),
}
#[derive(Clone, Debug, PartialEq)]
struct K(String, Vec<Seg>);
#[derive(Clone, Debug, PartialEq)]
enum S {
    V(A),
    Ctx(Vec<Seg>),
}
#[derive(Clone, Debug, PartialEq)]
enum E {
    Type(usize),
    Attr(K, Option<(usize, Vec<A>, bool)>),
    Scoped(Option<K>, Vec<(S, usize, Vec<S>, bool)>),
    Fwd,
    Rev,
    FwdTo(Vec<String>),
    RevTo(Vec<String>),
    Rec,
    Fn(String, Vec<Vec<E>>),
    Def(String, Vec<E>),
    Ref(String),
}

fn a_to(a: &A) -> Value {
    match a {
        A::Text(s) => Value::Text(s.clone()),
        A::Int(i) => Value::Number(Number::Integer(*i)),
        A::Flt(f) => Value::Number(Number::Float(*f)),
        A::Id(s) => Value::RootShapeIdentifier(ident(s)),
        A::Abs(s) => Value::AbsoluteRootShapeIdentifier(sid(s)),
    }
}
fn seg_to(s: &Seg) -> KeyPathSegment {
    match s {
        Seg::V(a) => KeyPathSegment::Value(a_to(a)),
        Seg::F(n) => KeyPathSegment::FunctionProperty(ident(n)),
    }
}
fn segs_to(s: &[Seg]) -> Vec<KeyPathSegment> {
    s.iter().map(seg_to).collect()
}
fn k_to(k: &K) -> Key {
    Key::with_path(ident(&k.0), &segs_to(&k.1))
}
fn s_to(s: &S) -> ScopedValue {
    match s {
        S::V(a) => ScopedValue::Value(a_to(a)),
        S::Ctx(p) => ScopedValue::ContextValue(segs_to(p)),
    }
}
fn e_to(e: &E) -> SelectorExpression {
    let ids = |v: &Vec<String>| v.iter().map(|s| ident(s)).collect();
    match e {
        E::Type(i) => SelectorExpression::ShapeType(TYPES[*i].1.clone()),
        E::Attr(k, None) => SelectorExpression::AttributeSelector(AttributeSelector::new(k_to(k))),
        E::Attr(k, Some((op, vs, ci))) => {
            let vs: Vec<Value> = vs.iter().map(a_to).collect();
            let op = OPS[*op].1.clone();
            let c = if *ci { AttributeComparison::new_case_insensitive(op, &vs) } else { AttributeComparison::new(op, &vs) };
            SelectorExpression::AttributeSelector(AttributeSelector::with_comparison(k_to(k), c))
        }
        E::Scoped(k, asserts) => {
            let asserts: Vec<ScopedAttributeAssertion> = asserts
                .iter()
                .map(|(l, op, r, ci)| {
                    let r: Vec<ScopedValue> = r.iter().map(s_to).collect();
                    let op = OPS[*op].1.clone();
                    if *ci {
                        ScopedAttributeAssertion::new_case_insensitive(s_to(l), op, &r)
                    } else {
                        ScopedAttributeAssertion::new(s_to(l), op, &r)
                    }
                })
                .collect();
            SelectorExpression::ScopedAttributeSelector(match k {
                None => ScopedAttributeSelector::new(&asserts),
                Some(k) => ScopedAttributeSelector::with_key(k_to(k), &asserts),
            })
        }
        E::Fwd => SelectorExpression::NeighborSelector(NeighborSelector::ForwardUndirected),
        E::Rev => SelectorExpression::NeighborSelector(NeighborSelector::ReverseUndirected),
        E::FwdTo(v) => SelectorExpression::NeighborSelector(NeighborSelector::ForwardDirected(ids(v))),
        E::RevTo(v) => SelectorExpression::NeighborSelector(NeighborSelector::ReverseDirected(ids(v))),
        E::Rec => SelectorExpression::NeighborSelector(NeighborSelector::ForwardRecursiveDirected),
        E::Fn(n, args) => {
            let args: Vec<Selector> = args.iter().map(|a| sel(a)).collect();
            SelectorExpression::Function(Function::new(ident(n), &args))
        }
        E::Def(n, s) => SelectorExpression::VariableDefinition(VariableDefinition::new(ident(n), sel(s))),
        E::Ref(n) => SelectorExpression::VariableReference(VariableReference::new(ident(n))),
    }
}
fn sel(es: &[E]) -> Selector {
    Selector::from(es.iter().map(e_to).collect::<Vec<_>>())
}

fn a_from(v: &Value) -> Result<A, String> {
    let is = [v.is_text(), v.is_number(), v.is_root_shape_id(), v.is_absolute_root_shape_id()];
    let has = [v.as_text().is_some(), v.as_number().is_some(), v.as_root_shape_id().is_some(), v.as_absolute_root_shape_id().is_some()];
    one_of("value", &is, &has)?;
    Ok(match v {
        Value::Text(s) if v.as_text() == Some(s) => A::Text(s.clone()),
        Value::Number(Number::Integer(i)) => A::Int(*i),
        Value::Number(Number::Float(f)) => A::Flt(*f),
        Value::RootShapeIdentifier(i) => A::Id(i.to_string()),
        Value::AbsoluteRootShapeIdentifier(i) => A::Abs(i.to_string()),
        v => return Err(format!("not the text of {v:?}")),
    })
}
fn one_of(what: &str, is: &[bool], has: &[bool]) -> Result<(), String> {
    if is.iter().filter(|b| **b).count() != 1 || is != has {
        return Err(format!("{what}: it is {is:?} and has {has:?}"));
    }
    Ok(())
}
fn seg_from(s: &KeyPathSegment) -> Result<Seg, String> {
    one_of("path segment", &[s.is_value(), s.is_function_property()], &[s.as_value().is_some(), s.as_function_property().is_some()])?;
    match (s.as_value(), s.as_function_property()) {
        (Some(v), _) => Ok(Seg::V(a_from(v)?)),
        (_, n) => Ok(Seg::F(n.unwrap().to_string())),
    }
}
fn k_from(k: &Key) -> Result<K, String> {
    let path = k.path().map(seg_from).collect::<Result<Vec<_>, _>>()?;
    if k.has_path() == path.is_empty() {
        return Err("has_path".into());
    }
    Ok(K(k.identifier().to_string(), path))
}
fn s_from(s: &ScopedValue) -> Result<S, String> {
    one_of("scoped value", &[s.is_value(), s.is_context_value()], &[s.as_value().is_some(), s.as_context_value().is_some()])?;
    if let Some(v) = s.as_value() {
        return Ok(S::V(a_from(v)?));
    }
    let path = s.as_context_value().unwrap().map(seg_from).collect::<Result<Vec<_>, _>>()?;
    Ok(S::Ctx(path))
}
fn op_from(o: &Comparator) -> usize {
    OPS.iter().position(|p| p.1 == *o).unwrap()
}
fn e_from(e: &SelectorExpression) -> Result<E, String> {
    let is = [e.is_shape_type(), e.is_attribute_selector(), e.is_scoped_attribute_selector(), e.is_neighbor_selector(), e.is_function(), e.is_variable_definition(), e.is_variable_reference()];
    let has = [
        e.as_shape_type().is_some(),
        e.as_attribute_selector().is_some(),
        e.as_scoped_attribute_selector().is_some(),
        e.as_neighbor_selector().is_some(),
        e.as_function().is_some(),
        e.as_variable_definition().is_some(),
        e.as_variable_reference().is_some(),
    ];
    one_of("expression", &is, &has)?;
    let names = |v: Option<Vec<String>>| v.unwrap();
    Ok(if let Some(t) = e.as_shape_type() {
        E::Type(TYPES.iter().position(|p| p.1 == *t).unwrap())
    } else if let Some(a) = e.as_attribute_selector() {
        let c = match a.comparison() {
            None => None,
            Some(c) => {
                let vs = c.rhs_values().map(a_from).collect::<Result<Vec<_>, _>>()?;
                if c.has_rhs_values() == vs.is_empty() {
                    return Err("has_rhs_values".into());
                }
                Some((op_from(c.comparator()), vs, c.is_case_insensitive()))
            }
        };
        if a.has_comparison() != c.is_some() {
            return Err("has_comparison".into());
        }
        E::Attr(k_from(a.key())?, c)
    } else if let Some(a) = e.as_scoped_attribute_selector() {
        if a.has_key() != a.key().is_some() || a.has_assertions() != (a.assertions().count() > 0) {
            return Err("has_key or has_assertions".into());
        }
        let mut v = vec![];
        for x in a.assertions() {
            let r = x.rhs_values().map(s_from).collect::<Result<Vec<_>, _>>()?;
            if x.has_rhs_values() == r.is_empty() {
                return Err("has_rhs_values".into());
            }
            v.push((s_from(x.lhs_value())?, op_from(x.comparator()), r, x.is_case_insensitive()));
        }
        E::Scoped(a.key().as_ref().map(k_from).transpose()?, v)
    } else if let Some(n) = e.as_neighbor_selector() {
        let list = |i: Option<Vec<String>>| i;
        let f = list(n.as_forward_directed().map(|v| v.map(|i| i.to_string()).collect()));
        let r = list(n.as_reverse_directed().map(|v| v.map(|i| i.to_string()).collect()));
        let is = [n.is_forward_undirected(), n.is_reverse_undirected(), n.is_forward_recursive_directed(), n.is_forward_directed(), n.is_reverse_directed()];
        one_of("neighbors", &is, &[is[0], is[1], is[2], f.is_some(), r.is_some()])?;
        match is.iter().position(|b| *b) {
            Some(0) => E::Fwd,
            Some(1) => E::Rev,
            Some(2) => E::Rec,
            Some(3) => E::FwdTo(names(f)),
            _ => E::RevTo(names(r)),
        }
    } else if let Some(f) = e.as_function() {
        if f.has_arguments() != (f.arguments().count() > 0) {
            return Err("has_arguments".into());
        }
        E::Fn(f.name().to_string(), f.arguments().map(sel_from).collect::<Result<Vec<_>, _>>()?)
    } else if let Some(d) = e.as_variable_definition() {
        if e_from(&SelectorExpression::VariableReference(d.new_reference()))? != E::Ref(d.name().to_string()) {
            return Err("new_reference".into());
        }
        E::Def(d.name().to_string(), sel_from(d.selector())?)
    } else {
        E::Ref(e.as_variable_reference().unwrap().name().to_string())
    })
}
/// What the accessors say of a selector.
fn sel_from(s: &Selector) -> Result<Vec<E>, String> {
    if s.has_expressions() != (s.expressions().count() > 0) {
        return Err("has_expressions".into());
    }
    s.expressions().map(e_from).collect()
}
fn spells(s: &Selector, want: &[E]) -> Result<(), String> {
    let got = sel_from(s)?;
    if got != want {
        return Err(format!("built {got:?}, calls spell {want:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------ own spelling

fn a_tok(a: &A, single: bool) -> String {
    match a {
        A::Text(s) if s.contains('\'') => format!("\"{s}\""),
        A::Text(s) if s.contains('"') || single => format!("'{s}'"),
        A::Text(s) => format!("\"{s}\""),
        A::Int(i) => i.to_string(),
        A::Flt(f) => {
            let s = format!("{f:?}");
            if single {
                s.to_uppercase()
            } else {
                s
            }
        }
        A::Id(s) | A::Abs(s) => s.clone(),
    }
}
fn segs_tok(s: &[Seg], q: bool, out: &mut Vec<String>) {
    for (i, s) in s.iter().enumerate() {
        if i > 0 {
            out.push("|".into());
        }
        match s {
            Seg::V(a) => out.push(a_tok(a, q)),
            Seg::F(n) => out.extend(["(".into(), n.clone(), ")".into()]),
        }
    }
}
fn k_tok(k: &K, q: bool, out: &mut Vec<String>) {
    out.push(k.0.clone());
    if !k.1.is_empty() {
        out.push("|".into());
        segs_tok(&k.1, q, out);
    }
}
fn s_tok(s: &S, q: bool, out: &mut Vec<String>) {
    match s {
        S::V(a) => out.push(a_tok(a, q)),
        S::Ctx(p) => {
            out.push("@{".into());
            segs_tok(p, q, out);
            out.push("}".into());
        }
    }
}
fn commas<T>(v: &[T], out: &mut Vec<String>, mut f: impl FnMut(&T, &mut Vec<String>)) {
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            out.push(",".into());
        }
        f(x, out);
    }
}
fn toks(es: &[E], q: bool, out: &mut Vec<String>) {
    for e in es {
        match e {
            E::Type(i) => out.push(TYPES[*i].0.into()),
            E::Attr(k, c) => {
                out.push("[".into());
                k_tok(k, q, out);
                if let Some((op, vs, ci)) = c {
                    out.push(OPS[*op].0.into());
                    commas(vs, out, |a, o| o.push(a_tok(a, q)));
                    if *ci {
                        out.push("i".into());
                    }
                }
                out.push("]".into());
            }
            E::Scoped(k, asserts) => {
                out.push("[@".into());
                if let Some(k) = k {
                    k_tok(k, q, out);
                }
                out.push(":".into());
                for (i, (l, op, r, ci)) in asserts.iter().enumerate() {
                    if i > 0 {
                        out.push("&&".into());
                    }
                    s_tok(l, q, out);
                    out.push(OPS[*op].0.into());
                    commas(r, out, |a, o| s_tok(a, q, o));
                    if *ci {
                        out.push("i".into());
                    }
                }
                out.push("]".into());
            }
            E::Fwd => out.push(">".into()),
            E::Rev => out.push("<".into()),
            E::Rec => out.push("~>".into()),
            E::FwdTo(v) => {
                out.push("-[".into());
                commas(v, out, |s, o| o.push(s.clone()));
                out.push("]->".into());
            }
            E::RevTo(v) => {
                out.push("<-[".into());
                commas(v, out, |s, o| o.push(s.clone()));
                out.push("]-".into());
            }
            E::Fn(n, args) => {
                out.extend([":".into(), n.clone(), "(".into()]);
                commas(args, out, |a, o| toks(a, q, o));
                out.push(")".into());
            }
            E::Def(n, s) => {
                out.extend(["$".into(), n.clone(), "(".into()]);
                toks(s, q, out);
                out.push(")".into());
            }
            E::Ref(n) => out.extend(["${".into(), n.clone(), "}".into()]),
        }
    }
}
fn wordy(c: char) -> bool {
    c.is_ascii_alphanumeric() || "_.#+-".contains(c)
}
/// Lay the tokens out with `gap` where white space may stand, and at least a space where it must.
fn lay(t: &[String], gap: &dyn Fn(usize) -> &'static str) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            let g = gap(i);
            let (l, r) = (t[i - 1].chars().last().unwrap(), x.chars().next().unwrap());
            let tight = (wordy(l) && wordy(r)) || (l == '<' && r == '-') || (t[i - 1] == "]-" && (r == '>' || r == '-'));
            s += if g.is_empty() && tight { " " } else { g };
        }
        s += x;
    }
    s
}

// --------------------------------------------------------------------------- reference reader

enum Verdict {
    Is(Vec<E>),
    Refuse,
    Open,
}
struct P<'a> {
    s: &'a [char],
    i: usize,
    open: bool,
}
type R<T> = Result<T, ()>;
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && " \t\r\n".contains(self.s[self.i]) {
            self.i += 1;
        }
    }
    fn lit(&mut self, t: &str) -> bool {
        self.ws();
        let t: Vec<char> = t.chars().collect();
        if self.s[self.i..].starts_with(&t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.lit(t) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn word(&mut self) -> R<String> {
        self.ws();
        let b = self.i;
        let mut j = b;
        while j < self.s.len() && self.s[j] == '_' {
            j += 1;
        }
        if j >= self.s.len() || !self.s[j].is_ascii_alphabetic() {
            return Err(());
        }
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || self.s[j] == '_') {
            j += 1;
        }
        self.i = j;
        Ok(self.s[b..j].iter().collect())
    }
    fn try_<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> Option<T> {
        let b = self.i;
        match f(self) {
            Ok(t) => Some(t),
            Err(()) => {
                self.i = b;
                None
            }
        }
    }
    fn value(&mut self) -> R<A> {
        self.ws();
        let Some(&c) = self.s.get(self.i) else { return Err(()) };
        if c == '\'' || c == '"' {
            let b = self.i + 1;
            let mut j = b;
            while j < self.s.len() && self.s[j] != c {
                if self.s[j] < ' ' || self.s[j] == '\\' {
                    return Err(());
                }
                j += 1;
            }
            if j >= self.s.len() || j == b {
                return Err(());
            }
            self.i = j + 1;
            return Ok(A::Text(self.s[b..j].iter().collect()));
        }
        if c == '-' || c.is_ascii_digit() {
            let d = |j: usize| self.s.get(j).map_or(false, |c| c.is_ascii_digit());
            let b = self.i;
            let mut j = b + (c == '-') as usize;
            if !d(j) {
                if self.s.get(j).map_or(false, |c| " \t\r\n".contains(*c)) {
                    self.open = true;
                }
                return Err(());
            }
            if self.s[j] == '0' {
                j += 1;
            } else {
                while d(j) {
                    j += 1;
                }
            }
            let mut float = false;
            if self.s.get(j) == Some(&'.') && d(j + 1) {
                float = true;
                j += 2;
                while d(j) {
                    j += 1;
                }
            }
            if matches!(self.s.get(j), Some('e' | 'E')) {
                let mut k = j + 1;
                if matches!(self.s.get(k), Some('+' | '-')) {
                    k += 1;
                }
                if d(k) {
                    float = true;
                    while d(k) {
                        k += 1;
                    }
                    j = k;
                }
            }
            let t: String = self.s[b..j].iter().collect();
            self.i = j;
            return if float {
                let f: f64 = t.parse().map_err(|_| ())?;
                if f.is_infinite() {
                    self.open = true;
                }
                Ok(A::Flt(f))
            } else {
                t.parse().map(A::Int).map_err(|_| ())
            };
        }
        let w = self.word()?;
        // an absolute id is one token
        let b = self.i;
        let mut full = w.clone();
        loop {
            match self.s.get(self.i) {
                Some('.') => {
                    self.i += 1;
                    if self.s.get(self.i).map_or(true, |c| !c.is_ascii_alphabetic() && *c != '_') {
                        self.i = b;
                        return Ok(A::Id(w));
                    }
                    let Ok(x) = self.word() else {
                        self.i = b;
                        return Ok(A::Id(w));
                    };
                    full = format!("{full}.{x}");
                }
                Some('#') => {
                    self.i += 1;
                    if self.s.get(self.i).map_or(true, |c| !c.is_ascii_alphabetic() && *c != '_') {
                        self.i = b;
                        return Ok(A::Id(w));
                    }
                    let Ok(x) = self.word() else {
                        self.i = b;
                        return Ok(A::Id(w));
                    };
                    return Ok(A::Abs(format!("{full}#{x}")));
                }
                _ => {
                    self.i = b;
                    return Ok(A::Id(w));
                }
            }
        }
    }
    fn path(&mut self) -> R<Vec<Seg>> {
        let mut v = vec![];
        loop {
            v.push(if self.lit("(") {
                let n = self.word()?;
                self.need(")")?;
                Seg::F(n)
            } else {
                Seg::V(self.value()?)
            });
            if !self.lit("|") {
                return Ok(v);
            }
        }
    }
    fn key(&mut self) -> R<K> {
        let n = self.word()?;
        Ok(K(n, if self.lit("|") { self.path()? } else { vec![] }))
    }
    fn op(&mut self) -> R<usize> {
        let mut all: Vec<usize> = (0..OPS.len()).collect();
        all.sort_by_key(|i| std::cmp::Reverse(OPS[*i].0.len()));
        all.into_iter().find(|i| self.lit(OPS[*i].0)).ok_or(())
    }
    fn scoped(&mut self) -> R<S> {
        if self.lit("@{") {
            let p = self.path()?;
            self.need("}")?;
            Ok(S::Ctx(p))
        } else {
            Ok(S::V(self.value()?))
        }
    }
    fn list<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        let mut v = vec![f(self)?];
        while self.lit(",") {
            v.push(f(self)?);
        }
        Ok(v)
    }
    fn expr(&mut self) -> R<E> {
        self.ws();
        if self.lit("*") {
            return Ok(E::Type(0));
        }
        if let Some(w) = self.try_(|p| p.word()) {
            return TYPES.iter().position(|t| t.0 == w).map(E::Type).ok_or(());
        }
        if self.lit("[@") {
            let k = if self.lit(":") {
                None
            } else {
                let k = self.key()?;
                self.need(":")?;
                Some(k)
            };
            let mut v = vec![];
            loop {
                let l = self.scoped()?;
                let op = self.op()?;
                let r = self.list(|p| p.scoped())?;
                let ci = self.lit("i");
                v.push((l, op, r, ci));
                if !self.lit("&&") {
                    break;
                }
            }
            self.need("]")?;
            return Ok(E::Scoped(k, v));
        }
        if self.lit("[") {
            let k = self.key()?;
            let c = if self.lit("]") {
                return Ok(E::Attr(k, None));
            } else {
                let op = self.op()?;
                let v = self.list(|p| p.value())?;
                (op, v, self.lit("i"))
            };
            self.need("]")?;
            return Ok(E::Attr(k, Some(c)));
        }
        if self.lit("-[") {
            let v = self.list(|p| p.word())?;
            self.need("]->")?;
            return Ok(E::FwdTo(v));
        }
        if self.lit("<-[") {
            let v = self.list(|p| p.word())?;
            self.need("]-")?;
            if self.s.get(self.i) == Some(&'>') {
                self.open = true; // "<-[a]->": the grammar is ambiguous
            }
            return Ok(E::RevTo(v));
        }
        if self.lit("~>") {
            return Ok(E::Rec);
        }
        if self.lit(">") {
            return Ok(E::Fwd);
        }
        if self.lit("<") {
            return Ok(E::Rev);
        }
        if self.lit("${") {
            let n = self.word()?;
            self.need("}")?;
            return Ok(E::Ref(n));
        }
        if self.lit("$") {
            let n = self.word()?;
            self.need("(")?;
            let s = self.selector()?;
            self.need(")")?;
            return Ok(E::Def(n, s));
        }
        if self.lit(":") {
            let n = self.word()?;
            self.need("(")?;
            let v = self.list(|p| p.selector())?;
            self.need(")")?;
            return Ok(E::Fn(n, v));
        }
        Err(())
    }
    fn selector(&mut self) -> R<Vec<E>> {
        let mut v = vec![self.expr()?];
        loop {
            self.ws();
            match self.s.get(self.i) {
                None | Some(')' | ',') => return Ok(v),
                _ => v.push(self.expr()?),
            }
        }
    }
}
fn decide(t: &str) -> Verdict {
    let s: Vec<char> = t.chars().collect();
    // white space inside a number or an absolute id: whether that is one token is left open
    let mut quote = None;
    for (i, c) in s.iter().enumerate() {
        match quote {
            Some(q) if *c == q => quote = None,
            Some(_) => {}
            None if *c == '\'' || *c == '"' => quote = Some(*c),
            None if *c == '.' || *c == '#' => {
                let w = |j: Option<usize>| j.and_then(|j| s.get(j)).map_or(false, |c| " \t\r\n".contains(*c));
                if w(i.checked_sub(1)) || w(Some(i + 1)) {
                    return Verdict::Open;
                }
            }
            None => {}
        }
    }
    let mut p = P { s: &s, i: 0, open: false };
    let r = p.selector();
    p.ws();
    if p.open {
        return Verdict::Open;
    }
    match r {
        Ok(v) if p.i == s.len() => Verdict::Is(v),
        _ => Verdict::Refuse,
    }
}
fn parse(t: &str) -> Result<Result<Selector, String>, String> {
    silent(|| parse_selector(t).map_err(|e| e.to_string()))
}
fn judge(t: &str) -> Result<&'static str, String> {
    let got = parse(t)?;
    match (decide(t), got) {
        (Verdict::Open, _) => Ok("open"),
        (Verdict::Refuse, Err(_)) => Ok("refused"),
        (Verdict::Refuse, Ok(s)) => Err(format!("accepted as {s}, but does not follow the grammar")),
        (Verdict::Is(v), Ok(s)) if format!("{:?}", sel(&v)) == format!("{s:?}") => Ok("the selector it spells"),
        (Verdict::Is(v), r) => Err(format!("spells {:?}, read as {r:?}", sel(&v))),
    }
}

// ----------------------------------------------------------------------------------- families

fn atoms() -> Vec<A> {
    let mut v: Vec<A> = ["x", "it's", "say \"hi\"", "é☃", " ", "a#b", "]", "i", "1", "[@", "\u{7f}", "a, b", "\u{10FFFF}"]
        .iter()
        .map(|s| A::Text(s.to_string()))
        .collect();
    v.extend([0, 1, -1, 80, i64::MAX, i64::MIN].map(A::Int));
    v.extend([1.0, -0.5, 1e300, 1e-7, -0.0, 0.1, 123456789.0, f64::MIN_POSITIVE, f64::MAX].map(A::Flt));
    v.extend(["a", "i", "_b", "__x", "true", "string", "aB1_"].map(|s| A::Id(s.into())));
    v.extend(["a#b", "smithy.api#String", "_a.__b#_c", "a.b.c#d"].map(|s| A::Abs(s.into())));
    v
}
fn keys() -> Vec<K> {
    let mut v = vec![K("id".into(), vec![]), K("_a".into(), vec![]), K("i".into(), vec![])];
    for a in atoms() {
        v.push(K("trait".into(), vec![Seg::V(a)]));
    }
    v.push(K("trait".into(), vec![Seg::F("keys".into())]));
    v.push(K("trait".into(), vec![Seg::V(A::Id("enum".into())), Seg::F("values".into()), Seg::V(A::Text("t".into())), Seg::F("length".into())]));
    v.push(K("trait".into(), vec![Seg::F("a".into()), Seg::F("b".into()), Seg::V(A::Int(0))]));
    v
}
fn exprs() -> Vec<E> {
    let mut v: Vec<E> = (0..TYPES.len()).map(E::Type).collect();
    let k = || K("id".into(), vec![Seg::V(A::Id("name".into()))]);
    for key in keys() {
        v.push(E::Attr(key.clone(), None));
        v.push(E::Attr(key.clone(), Some((0, vec![A::Text("v".into())], false))));
        v.push(E::Scoped(Some(key), vec![(S::Ctx(vec![Seg::V(A::Id("a".into()))]), 3, vec![S::V(A::Int(1))], true)]));
    }
    for op in 0..OPS.len() {
        for a in atoms() {
            for ci in [false, true] {
                v.push(E::Attr(k(), Some((op, vec![a.clone()], ci))));
                v.push(E::Scoped(None, vec![(S::V(a.clone()), op, vec![S::Ctx(vec![Seg::V(a.clone())])], ci)]));
                v.push(E::Scoped(None, vec![(S::Ctx(vec![Seg::V(a.clone()), Seg::F("p".into())]), op, vec![S::V(a.clone())], ci)]));
            }
        }
    }
    let at = atoms();
    for a in &at {
        for b in &at {
            v.push(E::Attr(k(), Some((0, vec![a.clone(), b.clone()], true))));
            v.push(E::Scoped(
                Some(k()),
                vec![
                    (S::V(a.clone()), 0, vec![S::V(b.clone()), S::V(a.clone())], true),
                    (S::V(b.clone()), 7, vec![S::Ctx(vec![Seg::V(a.clone()), Seg::V(b.clone())])], false),
                ],
            ));
        }
    }
    v.extend([E::Fwd, E::Rev, E::Rec]);
    for n in [vec!["a"], vec!["a", "b"], vec!["resource", "_x", "i"]] {
        let n: Vec<String> = n.into_iter().map(String::from).collect();
        v.push(E::FwdTo(n.clone()));
        v.push(E::RevTo(n));
    }
    for n in ["a", "not", "_i", "__x"] {
        v.push(E::Ref(n.into()));
        v.push(E::Def(n.into(), vec![E::Type(0)]));
        v.push(E::Fn(n.into(), vec![vec![E::Type(0)]]));
    }
    v
}
/// One or two expressions of each form, to be combined.
fn reps() -> Vec<E> {
    vec![
        E::Type(0),
        E::Type(7),
        E::Attr(K("trait".into(), vec![Seg::V(A::Id("a".into()))]), None),
        E::Attr(K("id".into(), vec![Seg::F("length".into())]), Some((7, vec![A::Int(1), A::Text("it's".into())], true))),
        E::Scoped(Some(K("trait".into(), vec![])), vec![(S::Ctx(vec![Seg::V(A::Id("x".into()))]), 13, vec![S::V(A::Flt(1.0))], false)]),
        E::Scoped(None, vec![(S::V(A::Abs("a.b#c".into())), 1, vec![S::V(A::Id("i".into()))], true), (S::V(A::Int(-1)), 9, vec![S::V(A::Int(2))], false)]),
        E::Fwd,
        E::Rev,
        E::FwdTo(vec!["a".into(), "b".into()]),
        E::RevTo(vec!["a".into()]),
        E::Rec,
        E::Ref("v".into()),
    ]
}
fn trees(thorough: bool) -> Vec<Vec<E>> {
    let mut out: Vec<Vec<E>> = exprs().into_iter().map(|e| vec![e]).collect();
    let base = reps();
    let mut level1 = base.clone();
    for e in &base {
        level1.push(E::Fn("not".into(), vec![vec![e.clone()]]));
        level1.push(E::Def("v".into(), vec![e.clone()]));
    }
    let seqs = |pool: &[E], n: usize| -> Vec<Vec<E>> {
        sequences(pool.len(), n).into_iter().filter(|q| !q.is_empty()).map(|q| q.iter().map(|i| pool[*i].clone()).collect()).collect()
    };
    out.extend(seqs(&level1, 2));
    out.extend(seqs(&base, 3));
    for s in seqs(&base, 2) {
        out.push(vec![E::Fn("is".into(), vec![s.clone()])]);
        out.push(vec![E::Def("w".into(), s.clone()), E::Type(3)]);
        out.push(vec![E::Fn("test".into(), vec![s.clone(), vec![E::Type(1)], s.clone()]), E::Fwd]);
        for t in &base {
            out.push(vec![E::Fn("f".into(), vec![s.clone(), vec![E::Def("x".into(), vec![E::Fn("g".into(), vec![vec![t.clone()], s.clone()])])]])]);
        }
    }
    // every name in every name, with one and two arguments, three deep, and what is beside them
    let names = ["not", "is", "test", "a", "each"];
    let ty = |i| vec![E::Type(i)];
    let wrap = |n: &str, two: bool, inner: Vec<E>| -> Vec<Vec<E>> {
        let mut v = vec![vec![E::Fn(n.into(), if two { vec![inner.clone(), inner.clone()] } else { vec![inner.clone()] })], vec![E::Def(n.into(), inner)]];
        if two {
            v.truncate(1);
        }
        v
    };
    for bits in 0..8u8 {
        for q in sequences(names.len(), 3).into_iter().filter(|q| !q.is_empty()) {
            let mut ts = vec![ty(3)];
            for (d, n) in q.iter().enumerate() {
                ts = ts.into_iter().flat_map(|t| wrap(names[*n], bits & (1 << d) != 0, t)).collect();
            }
            if bits >> q.len() == 0 {
                for t in ts {
                    out.push([t.clone(), ty(0)].concat());
                    out.push([ty(1), t.clone()].concat());
                    out.push(t);
                }
            }
        }
    }
    // long lists of everything there are lists of, and deep nesting
    let mut ns = vec![3usize, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100];
    ns.extend(if thorough { vec![127, 128, 129, 255, 256, 257, 1000, 4097] } else { vec![128, 255, 256, 257] });
    for n in ns {
        for kind in 0..4 {
            let val = |i: usize| match kind {
                0 => A::Id(format!("v{i}")),
                1 => A::Int(i as i64),
                2 => A::Text(format!("t{}", i % 3)),
                _ => [A::Id("i".into()), A::Text("x".into()), A::Flt(0.5), A::Abs("a.b#c".into())][i % 4].clone(),
            };
            let vals: Vec<A> = (0..n).map(val).collect();
            let segs: Vec<Seg> = (0..n).map(|i| if kind == 3 && i % 5 == 4 { Seg::F("values".into()) } else { Seg::V(val(i)) }).collect();
            let k = || K("id".into(), vec![]);
            let sv: Vec<S> = (0..n).map(|i| if kind == 3 && i % 3 == 0 { S::Ctx(segs[..2].to_vec()) } else { S::V(val(i)) }).collect();
            out.push(vec![E::Attr(K("trait".into(), segs.clone()), None)]);
            out.push(vec![E::Attr(k(), Some((kind, vals.clone(), kind % 2 == 0)))]);
            out.push(vec![E::Scoped(Some(k()), vec![(S::Ctx(segs.clone()), kind, sv.clone(), kind % 2 == 1)])]);
            out.push(vec![E::Scoped(None, (0..n).map(|i| (S::V(val(i)), i % 14, vec![S::V(val(i + 1)); 1 + i % 2], i % 3 == 0)).collect())]);
        }
        let ids: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
        out.push(vec![E::FwdTo(ids.clone())]);
        out.push(vec![E::RevTo(ids.clone())]);
        out.push((0..n).map(|i| base[i % base.len()].clone()).collect());
        out.push(vec![E::Rec; n]);
        out.push(vec![E::Fn("f".into(), (0..n).map(|i| vec![base[i % base.len()].clone(); 1 + i % 2]).collect())]);
        out.push(vec![E::Def("f".into(), (0..n).map(|i| base[i % base.len()].clone()).collect())]);
        let long = "n".repeat(n);
        out.push(vec![E::Fn(long.clone(), vec![ty(0)]), E::Ref(long.clone()), E::Attr(K(long.clone(), vec![]), Some((0, vec![A::Text("é☃ ".repeat(n)), A::Abs(format!("{long}.{long}#{long}"))], false)))]);
    }
    for n in 4..=(if thorough { 12 } else { 8 }) {
        let (mut f, mut d) = (ty(2), ty(2));
        for i in 0..n {
            f = vec![E::Fn("not".into(), vec![f])];
            d = if i % 2 == 0 { vec![E::Fwd, E::Fn("is".into(), vec![ty(1), d])] } else { vec![E::Def("x".into(), d), E::Rev] };
        }
        out.push(f);
        out.push(d);
    }
    if thorough {
        out.extend(seqs(&base, 4));
        out.extend(seqs(&level1, 3));
    }
    out
}

pub fn text(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 6;
    c.rule = "every selector of one expression over all forms, 26 types, 14 comparators and 39 values, every sequence of up to three (thorough: four) expressions and nestings of functions and definitions up to depth three: printed, it parses to an equal selector, and spelled by an independent printer in five layouts and both quotes it parses to the same; every text one edit away from 40 selector texts and every sequence of up to four (thorough: five) of 24 selector tokens: parsed to what an independent reader of the grammar finds, or refused; non-trivial = the text spells a selector".into();
    c.assumptions = vec!["texts are judged open where the selector grammar leaves it open whether white space splits a token, in '<-[a]->', and for numbers beyond the range of 64-bit floats".into()];
    for (i, t) in trees(c.thorough).iter().enumerate() {
        let mut tk = vec![];
        toks(t, false, &mut tk);
        let name = lay(&tk, &|_| " ");
        c.case_o(&format!("selector {i}: {name}"), true, || {
            let s = sel(t);
            let want = format!("{s:?}");
            let text = s.to_string();
            let mut ways = vec![text.clone()];
            for q in [false, true] {
                let mut tk = vec![];
                toks(t, q, &mut tk);
                ways.push(lay(&tk, &|_| ""));
                ways.push(lay(&tk, &|_| " "));
                ways.push(lay(&tk, &|i| ["\n", "\t ", "\r\n"][i % 3]));
                ways.push(format!(" \n{}\t", lay(&tk, &|i| if i % 2 == 0 { "" } else { "  " })));
            }
            for w in ways {
                match parse(&w)? {
                    Ok(p) if format!("{p:?}") == want && p == s => {}
                    r => return Err(format!("{w:?} is read as {r:?}, spells {want}")),
                }
                match decide(&w) {
                    Verdict::Is(v) if v == *t => {}
                    Verdict::Open => {}
                    Verdict::Is(v) => return Err(format!("printed as {w:?}, which spells {v:?}")),
                    Verdict::Refuse => return Err(format!("printed as {w:?}, which is not selector text")),
                }
            }
            Ok("printed and parsed")
        });
    }
    let alphabet = [
        " ", "a", "i", "1", "-", ".", "#", "_", "[", "]", "(", ")", "{", "}", "<", ">", "=", "!", "$", "@", ":", ",", "|", "&", "\"", "'",
        "\\", "*", "~", "é", "\n", "e", "0", "\u{1}", "%",
    ];
    let mut texts: BTreeSet<String> = BTreeSet::new();
    let mut bases: Vec<String> = vec![
        "[trait|range|min = 1]".into(),
        "service [id = smithy.example#MyService] -[operation]-> operation".into(),
        ":test(> structure > member > string, number)".into(),
        "$hello(-[input, output]->) ${hello}".into(),
        "[@trait|enum|(values): @{name} = 'x' i && @{value} >= 1.5e3]".into(),
        "structure:not([trait|a]) <-[b]- *".into(),
        "[id|(length) {<<} 1, -2, \"z\" i]".into(),
    ];
    for t in reps().into_iter().map(|e| vec![e]).chain([vec![E::Fn("f".into(), vec![reps()[..3].to_vec(), vec![E::Fwd]])], vec![E::Def("d".into(), reps()[5..7].to_vec())]]) {
        for q in [false, true] {
            let mut tk = vec![];
            toks(&t, q, &mut tk);
            bases.push(lay(&tk, &|_| ""));
            bases.push(lay(&tk, &|_| " "));
        }
    }
    for b in &bases {
        texts.insert(b.clone());
        let ch: Vec<char> = b.chars().collect();
        for i in 0..=ch.len() {
            let l: String = ch[..i].iter().collect();
            let r: String = ch[i..].iter().collect();
            texts.insert(l.clone());
            for a in alphabet {
                texts.insert(format!("{l}{a}{r}"));
                if i < ch.len() {
                    texts.insert(format!("{l}{a}{}", ch[i + 1..].iter().collect::<String>()));
                }
            }
            if i < ch.len() {
                texts.insert(format!("{l}{}", ch[i + 1..].iter().collect::<String>()));
                texts.insert(format!("{l}{}{r}", ch[i]));
            }
            if i + 1 < ch.len() {
                texts.insert(format!("{l}{}{}{}", ch[i + 1], ch[i], ch[i + 2..].iter().collect::<String>()));
            }
        }
    }
    let tokens = [
        "*", "string", "i", "[", "]", "[@", ":", "=", ">=", "<", ">", "-[", "]->", "]-", "(", ")", ",", "|", "$", "${", "}", "@{", "1", "'x'",
        "&&", "~>", "a#b", "-1.5e2", "{<}",
    ];
    let few = if c.thorough { tokens.len() } else { 24 };
    for q in sequences(few, if c.thorough { 4 } else { 3 }) {
        for sep in ["", " "] {
            texts.insert(q.iter().map(|i| tokens[*i]).collect::<Vec<_>>().join(sep));
        }
    }
    // inside brackets the interesting texts are longer
    let inner = ["id", "i", "|", "(", ")", "=", ">", ",", "1", "'x'", "a#b", "{<}", ">=", "\"\""];
    for q in sequences(inner.len(), if c.thorough { 5 } else { 4 }) {
        texts.insert(format!("[{}]", q.iter().map(|i| inner[*i]).collect::<Vec<_>>().join(" ")));
    }
    let inner = ["a", ":", "@{", "}", "=", "&&", "1", ",", "i", "|", "<="];
    for q in sequences(inner.len(), if c.thorough { 6 } else { 5 }) {
        texts.insert(format!("[@{}]", q.iter().map(|i| inner[*i]).collect::<Vec<_>>().join(" ")));
    }
    for n in ["99999999999999999999", "-9223372036854775808", "9223372036854775808", "1e999", "1e-999", "01", "1.", ".5", "-0", "1e5", "1E+5", "1e", "+1", "0x1", "1_0", "-"] {
        texts.insert(format!("[a = {n}]"));
        texts.insert(format!("[a|{n}]"));
        texts.insert(format!("[@: {n} < {n}]"));
    }
    for t in texts {
        let spells = !matches!(decide(&t), Verdict::Refuse);
        c.case_o(&format!("text {t:?}"), spells, || judge(&t));
    }
    for (n, t) in TYPES {
        c.case(&format!("type {n}"), true, || {
            if t.to_string() != n || ShapeType::from_str(n).ok() != Some(t.clone()) {
                return Err("does not print as and parse from its name".into());
            }
            Ok(())
        });
    }
    for (n, t) in OPS {
        c.case(&format!("comparator {n}"), true, || {
            if t.to_string() != n || Comparator::from_str(n).ok() != Some(t.clone()) {
                return Err("does not print as and parse from its sign".into());
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------------------------------- C28

fn of_type(t: &str, k: &str) -> bool {
    let simple = SIMPLE.contains(&k);
    match t {
        // a shape that is only referred to is not one of the model's
        "*" => k != "unresolved",
        "number" => ["byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal"].contains(&k),
        "simpleType" => simple,
        "collection" => k == "list" || k == "set",
        _ => t == k,
    }
}

pub fn by_type(c: &mut Ctx) {
    c.per_case = 1;
    c.rule = "every type name and every sequence of two (thorough: three) type names on every model of one or two kinds of shape, with and without traits, and on a model with three shapes of every kind under several hash seeds, and on the shared models of several shapes; with the type name member, no shape; non-trivial = some shape is selected".into();
    let mut bodies = plain_bodies();
    if !bodies.contains(&Body::Unresolved) {
        bodies.push(Body::Unresolved);
    }
    let mut models: Vec<(String, Spec)> = vec![("empty".into(), Spec::default())];
    for (i, a) in bodies.iter().enumerate() {
        models.push((format!("{i}"), Spec::default().with("a.b#X", a.clone())));
        for (j, b) in bodies.iter().enumerate() {
            models.push((format!("{i} and {j}"), Spec::default().with("a.b#X", a.clone()).with("z#Y", b.clone())));
        }
    }
    let mut all = Spec::default();
    for (i, b) in bodies.iter().enumerate() {
        for ns in ["a", "b.c", "smithy.api"] {
            all = all.with(&format!("{ns}#S{i}"), b.clone());
        }
    }
    models.push(("all kinds".into(), all.clone()));
    for (n, sp) in super::iofam::models(c.thorough) {
        if sp.shapes.len() > 1 || n.contains("shape") {
            models.push((n, sp));
        }
    }
    let n = TYPES.len() - 1; // "member" selects members, which the evaluation does not yield
    let seqs: Vec<Vec<usize>> = sequences(n, if c.thorough { 3 } else { 2 }).into_iter().filter(|q| !q.is_empty()).collect();
    // no shape of the model is a member, whether or not the members of shapes are selected
    for (name, sp) in &models {
        let mut qs = vec![vec![n]];
        if name == "all kinds" {
            qs.extend((0..n).flat_map(|i| [vec![n, i], vec![i, n]]));
        }
        for q in qs {
            let qn: Vec<&str> = q.iter().map(|i| TYPES[*i].0).collect();
            c.case(&format!("{} on {name}", qn.join(" ")), false, || {
                let s = Selector::from(q.iter().map(|i| E::Type(*i)).map(|e| e_to(&e)).collect::<Vec<_>>());
                let m = sp.build();
                match silent(|| query(&s, &m))? {
                    Projection::Shapes(v) if v.iter().any(|i| !i.is_member()) => Err(format!("selected {v:?}")),
                    _ => Ok(()),
                }
            });
        }
    }
    for (name, sp) in &models {
        for q in &seqs {
            if q.len() > 1 && name != "all kinds" {
                continue;
            }
            let qn: Vec<&str> = q.iter().map(|i| TYPES[*i].0).collect();
            let want: BTreeSet<String> =
                sp.shapes.iter().filter(|(_, s)| qn.iter().all(|t| of_type(t, s.body.kind()))).map(|(k, _)| k.clone()).collect();
            let seeds: &[u64] = if name == "all kinds" && q.len() == 1 { &[0, 1, 2, 3] } else { &[0] };
            for seed in seeds {
                c.case(&format!("{} on {name}, seed {seed}", qn.join(" ")), !want.is_empty(), || {
                    let s = Selector::from(q.iter().map(|i| E::Type(*i)).map(|e| e_to(&e)).collect::<Vec<_>>());
                    let run = || {
                        let m = sp.build();
                        silent(|| match query(&s, &m) {
                            Projection::Empty => Ok(vec![]),
                            Projection::Shapes(v) => Ok(v.iter().map(|i| i.to_string()).collect::<Vec<_>>()),
                            p => Err(format!("{p:?}")),
                        })
                    };
                    let got = if *seed == 0 {
                        run()??
                    } else {
                        let (sp, q) = (sp.clone(), q.clone());
                        with_seed(*seed, move || {
                            let s = Selector::from(q.iter().map(|i| e_to(&E::Type(*i))).collect::<Vec<_>>());
                            match query(&s, &sp.build()) {
                                Projection::Empty => Ok(vec![]),
                                Projection::Shapes(v) => Ok(v.iter().map(|i| i.to_string()).collect::<Vec<_>>()),
                                p => Err(format!("{p:?}")),
                            }
                        })?
                    };
                    let set: BTreeSet<String> = got.iter().cloned().collect();
                    if set.len() != got.len() {
                        return Err(format!("a shape is selected twice: {got:?}"));
                    }
                    if set != want {
                        return Err(format!("selected {set:?}, should be {want:?}"));
                    }
                    Ok(())
                });
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- C34

pub fn builders(c: &mut Ctx) {
    c.per_case = 1;
    c.rule = "every method of the selector builders and every comparison constructor, on every value of the pool, first in and after up to two other calls (as the first, second and third call), gives the selector that call spells: same expressions in the same order with the same values, by every accessor; every selector of the family of C27 says by its accessors what it was made of; every sequence of up to four (five) calls on every list of a selector; every part set from any to any value, leaving the others; non-trivial = all".into();
    type Start = (String, E, Box<dyn Fn() -> SelectorBuilder>);
    type Add = (String, E, Box<dyn Fn(&mut SelectorBuilder)>);
    let mut starts: Vec<Start> = vec![];
    let mut adds: Vec<Add> = vec![];
    macro_rules! types {
        ($($i:expr, $f:ident, $g:ident;)*) => {$(
            starts.push((stringify!($f).into(), E::Type($i), Box::new(|| SelectorBuilder::$f())));
            adds.push((stringify!($g).into(), E::Type($i), Box::new(|b| { let _ = b.$g(); })));
            starts.push((format!("shape {}", stringify!($f)), E::Type($i), Box::new(|| SelectorBuilder::shape(TYPES[$i].1.clone()))));
            adds.push((format!("add_shape {}", stringify!($f)), E::Type($i), Box::new(|b| { let _ = b.add_shape(TYPES[$i].1.clone()); })));
        )*};
    }
    types! {
        0, any_shape, add_any_shape; 1, any_number, add_any_number; 2, any_simple_type, add_any_simple_type;
        3, any_collection, add_any_collection; 4, blob, add_blob; 5, boolean, add_boolean; 6, document, add_document;
        7, string, add_string; 8, integer, add_integer; 9, byte, add_byte; 10, short, add_short; 11, long, add_long;
        12, float, add_float; 13, double, add_double; 14, big_decimal, add_big_decimal; 15, big_integer, add_big_integer;
        16, timestamp, add_timestamp; 17, list, add_list; 18, set, add_set; 19, map, add_map; 20, structure, add_structure;
        21, union, add_union; 22, service, add_service; 23, operation, add_operation; 24, resource, add_resource; 25, member, add_member;
    }
    macro_rules! plain {
        ($($e:expr, $f:ident($($x:expr),*), $g:ident($($y:expr),*);)*) => {$(
            starts.push((stringify!($f).into(), $e, Box::new(|| SelectorBuilder::$f($($x),*))));
            adds.push((stringify!($g).into(), $e, Box::new(|b| { let _ = b.$g($($y),*); })));
        )*};
    }
    let ab = || vec!["a".to_string(), "b".to_string()];
    let one = || vec![E::Type(7)];
    let args = || [SelectorBuilder::string(), { let mut b = SelectorBuilder::list(); b.add_forward_undirected(); b }];
    let argt = || vec![vec![E::Type(7)], vec![E::Type(17), E::Fwd]];
    fn fargs() -> [SelectorBuilder; 2] {
        [SelectorBuilder::string(), {
            let mut b = SelectorBuilder::list();
            b.add_forward_undirected();
            b
        }]
    }
    let _ = (args, one);
    fn ids() -> [atelier_core::model::Identifier; 2] {
        [ident("a"), ident("b")]
    }
    fn fun() -> Function {
        Function::new(ident("ff"), &[sel(&[E::Type(7)])])
    }
    fn attr() -> AttributeSelector {
        AttributeSelector::new(Key::new(ident("id")))
    }
    fn scop() -> ScopedAttributeSelector {
        ScopedAttributeSelector::new(&[ScopedAttributeAssertion::new(s_to(&S::V(A::Int(1))), Comparator::StringEqual, &[s_to(&S::V(A::Int(2)))])])
    }
    plain! {
        E::Fwd, forward_undirected(), add_forward_undirected();
        E::Rev, reverse_undirected(), add_reverse_undirected();
        E::Rec, forward_recursive_directed(), add_forward_recursive_directed();
        E::FwdTo(ab()), forward_directed(&ids()), add_forward_directed(&ids());
        E::RevTo(ab()), reverse_directed(&ids()), add_reverse_directed(&ids());
        E::Rev, neighbor(NeighborSelector::ReverseUndirected), add_neighbor(NeighborSelector::ReverseUndirected);
        E::Fn("ff".into(), vec![vec![E::Type(7)]]), function(fun()), add_function(fun());
        E::Fn("gg".into(), argt()), function_from(ident("gg"), &fargs()), add_function_from(ident("gg"), &fargs());
        E::Fn("test".into(), argt()), fn_test(&fargs()), add_test_function(&fargs());
        E::Fn("is".into(), argt()), fn_is(&fargs()), add_is_function(&fargs());
        E::Fn("not".into(), argt()), fn_not(&fargs()), add_not_function(&fargs());
        E::Fn("topdown".into(), argt()), fn_topdown(&fargs()), add_topdown_function(&fargs());
        E::Ref("v".into()), variable_reference(VariableReference::new(ident("v"))), add_variable_reference(VariableReference::new(ident("v")));
        E::Ref("v".into()), variable_reference_from(ident("v")), add_variable_reference_from(ident("v"));
        E::Def("v".into(), vec![E::Type(7)]), variable_definition(VariableDefinition::new(ident("v"), sel(&[E::Type(7)]))), add_variable_definition(VariableDefinition::new(ident("v"), sel(&[E::Type(7)])));
        E::Def("v".into(), vec![E::Type(7)]), variable_definition_from(ident("v"), SelectorBuilder::string()), add_variable_definition_from(ident("v"), SelectorBuilder::string());
        E::Attr(K("id".into(), vec![]), None), attribute(attr()), add_attribute(attr());
        E::Attr(K("id".into(), vec![]), None), from(attr().into()), add_attribute_from(Key::new(ident("id")), None);
        E::Attr(K("id".into(), vec![]), Some((0, vec![A::Int(1)], false))), from(e_to(&E::Attr(K("id".into(), vec![]), Some((0, vec![A::Int(1)], false))))), add_attribute_from(Key::new(ident("id")), Some(AttributeComparison::new(Comparator::StringEqual, &[a_to(&A::Int(1))])));
        E::Scoped(None, vec![(S::V(A::Int(1)), 0, vec![S::V(A::Int(2))], false)]), scoped_attribute(scop()), add_scoped_attribute(scop());
        E::Ref("w".into()), from(VariableReference::new(ident("w")).into()), add(VariableReference::new(ident("w")).into());
    }
    let reps_add: Vec<usize> = [0usize, 15, adds.len() - 3, adds.len() - 12, adds.len() - 17].to_vec();
    for (sn, se, s) in &starts {
        for a in std::iter::once(None).chain(adds.iter().map(Some)) {
            for b in std::iter::once(None).chain(reps_add.iter().map(|i| Some(&adds[*i]))) {
                if a.is_none() && b.is_some() {
                    continue;
                }
                let name = format!("{sn} {} {}", a.map_or("", |a| &a.0), b.map_or("", |b| &b.0));
                c.case(&name, true, || {
                    let mut want = vec![se.clone()];
                    let mut bld = s();
                    for x in [a, b].into_iter().flatten() {
                        x.2(&mut bld);
                        want.push(x.1.clone());
                    }
                    let w = sel(&want);
                    if bld.is_empty() {
                        return Err("the builder calls itself empty".into());
                    }
                    let by_ref: Selector = (&mut bld).into();
                    let many: Vec<Selector> = (&mut bld).into();
                    let copy: SelectorBuilder = SelectorBuilder::clone(&bld);
                    let by_copy: Selector = copy.into();
                    let got: Selector = bld.into();
                    for g in [&got, &by_ref, &by_copy, &many[0]] {
                        if *g != w || g.expressions().count() != want.len() {
                            return Err(format!("built {g}, calls spell {w}"));
                        }
                        spells(g, &want)?;
                    }
                    Ok(())
                });
            }
        }
    }
    // attribute builder
    type Named = (&'static str, &'static str, fn() -> AttributeBuilder, fn() -> ScopedAttributeBuilder);
    let named: [Named; 5] = [
        ("named", "nn", || AttributeBuilder::named(ident("nn")), || ScopedAttributeBuilder::named(ident("nn"))),
        ("id", "id", AttributeBuilder::named_id, ScopedAttributeBuilder::new_id),
        ("service", "service", AttributeBuilder::named_service, ScopedAttributeBuilder::new_service),
        ("trait", "trait", AttributeBuilder::named_trait, ScopedAttributeBuilder::new_trait),
        ("var", "var", AttributeBuilder::named_var, ScopedAttributeBuilder::new_var),
    ];
    let segs: Vec<Seg> = atoms().into_iter().map(Seg::V).chain([Seg::F("keys".into()), Seg::F("length".into())]).collect();
    fn add_seg(b: &mut AttributeBuilder, s: &Seg) {
        let _ = match s {
            Seg::V(A::Text(t)) => b.path_segment_for_text(t),
            Seg::V(A::Int(i)) => b.path_segment_for_number(Number::Integer(*i)),
            Seg::V(A::Flt(i)) => b.path_segment_for_number(Number::Float(*i)),
            Seg::V(A::Id(i)) => b.path_segment_for_id(ident(i)),
            Seg::V(A::Abs(i)) => b.path_segment_for_shape(sid(i)),
            Seg::F(n) => b.path_segment_for_function(ident(n)),
        };
    }
    fn add_seg_s(b: &mut ScopedAttributeBuilder, s: &Seg) {
        let _ = match s {
            Seg::V(A::Text(t)) => b.path_segment_for_text(t),
            Seg::V(A::Int(i)) => b.path_segment_for_number(Number::Integer(*i)),
            Seg::V(A::Flt(i)) => b.path_segment_for_number(Number::Float(*i)),
            Seg::V(A::Id(i)) => b.path_segment_for_id(ident(i)),
            Seg::V(A::Abs(i)) => b.path_segment_for_shape(sid(i)),
            Seg::F(n) => b.path_segment_for_function(ident(n)),
        };
    }
    fn attr_ok(b: AttributeBuilder, want: &E) -> Result<(), String> {
        let w = e_to(want);
        let mut m = b.clone();
        let s1: Selector = (&mut m).into();
        let s2: Selector = b.clone().into();
        let s3: Selector = SelectorBuilder::from(b.clone().into()).into();
        let x: SelectorBuilder = (&mut m).into();
        let s4: Selector = x.into();
        let e: SelectorExpression = b.clone().into();
        let a: AttributeSelector = b.into();
        let a2: AttributeSelector = (&mut m).into();
        let one = Selector::from(w.clone());
        if [s1, s2, s3, s4].iter().any(|s| *s != one) || e != w || SelectorExpression::from(a.clone()) != w || a2 != a {
            return Err(format!("built {e}, calls spell {w}"));
        }
        spells(&one, std::slice::from_ref(want))
    }
    fn scoped_ok(b: ScopedAttributeBuilder, want: &E) -> Result<(), String> {
        let w = e_to(want);
        let mut m = b.clone();
        let s1: Selector = (&mut m).into();
        let s2: Selector = b.clone().into();
        let x: SelectorBuilder = (&mut m).into();
        let s3: Selector = x.into();
        let e: SelectorExpression = b.clone().into();
        let a: ScopedAttributeSelector = b.into();
        let a2: ScopedAttributeSelector = (&mut m).into();
        let one = Selector::from(w.clone());
        if [s1, s2, s3].iter().any(|s| *s != one) || e != w || SelectorExpression::from(a.clone()) != w || a2 != a {
            return Err(format!("built {e}, calls spell {w}"));
        }
        spells(&one, std::slice::from_ref(want))
    }
    let lone = (S::V(A::Int(1)), 0usize, vec![S::V(A::Int(2))], false);
    for (nn, id, f, g) in named {
        for q in sequences(segs.len(), 2) {
            let path: Vec<Seg> = q.iter().map(|i| segs[*i].clone()).collect();
            let key = K(id.into(), path.clone());
            c.case(&format!("attribute builder {nn} with path {path:?}"), true, || {
                let want = E::Attr(key.clone(), None);
                let (mut b, mut b2, mut b3) = (f(), f(), f());
                for s in &path {
                    add_seg(&mut b, s);
                    b2.path_segment(seg_to(s));
                }
                b3.path(&segs_to(&path));
                attr_ok(b, &want)?;
                attr_ok(b2, &want)?;
                attr_ok(b3, &want)?;
                let want = E::Scoped(Some(key.clone()), vec![lone.clone()]);
                let (mut b, mut b2, mut b3) = (g(), g(), g());
                for s in &path {
                    add_seg_s(&mut b, s);
                    b2.path_segment(seg_to(s));
                }
                b3.path(&segs_to(&path));
                for mut x in [b, b2, b3] {
                    x.assertion(ScopedAttributeAssertion::new(s_to(&lone.0), OPS[0].1.clone(), &[s_to(&lone.2[0])]));
                    scoped_ok(x, &want)?;
                }
                Ok(())
            });
        }
    }
    let at = atoms();
    let k0 = || K("id".into(), vec![]);
    for (ai, a) in at.iter().enumerate() {
        for b in at.iter().take(if c.thorough { 39 } else { 20 }).map(Some).chain([None]) {
            let vs: Vec<A> = std::iter::once(a.clone()).chain(b.cloned()).collect();
            let v: Vec<Value> = vs.iter().map(a_to).collect();
            for ci in [false, true] {
                type M = fn(&mut AttributeBuilder, &[Value], bool);
                let ms: [(usize, M); 5] = [
                    (0, |b, v, c| drop(b.string_equal(v, c))),
                    (1, |b, v, c| drop(b.string_not_equal(v, c))),
                    (2, |b, v, c| drop(b.string_starts_with(v, c))),
                    (3, |b, v, c| drop(b.string_ends_with(v, c))),
                    (4, |b, v, c| drop(b.string_contains(v, c))),
                ];
                for (op, m) in ms {
                    c.case(&format!("attribute builder {} {vs:?} {ci}", OPS[op].0), true, || {
                        let mut bl = AttributeBuilder::named_id();
                        m(&mut bl, &v, ci);
                        attr_ok(bl, &E::Attr(k0(), Some((op, vs.clone(), ci))))
                    });
                }
                for op in 0..OPS.len() {
                    c.case(&format!("attribute builder compare {} {vs:?} {ci}", OPS[op].0), true, || {
                        let mut bl = AttributeBuilder::named_id();
                        bl.string_compare(OPS[op].1.clone(), &v, ci);
                        attr_ok(bl, &E::Attr(k0(), Some((op, vs.clone(), ci))))
                    });
                }
            }
            type M = fn(&mut AttributeBuilder, &[Value]);
            let ms: [(usize, M); 4] = [
                (10, |b, v| drop(b.projection_equal(v))),
                (11, |b, v| drop(b.projection_not_equal(v))),
                (12, |b, v| drop(b.projection_subset(v))),
                (13, |b, v| drop(b.projection_proper_subset(v))),
            ];
            for (op, m) in ms {
                c.case(&format!("attribute builder {} {vs:?}", OPS[op].0), true, || {
                    let mut bl = AttributeBuilder::named_id();
                    m(&mut bl, &v);
                    attr_ok(bl, &E::Attr(k0(), Some((op, vs.clone(), false))))
                });
            }
            if let (A::Int(_) | A::Flt(_), Some(A::Int(_) | A::Flt(_)) | None) = (a, b) {
                let n: Vec<Number> = v.iter().map(|x| x.as_number().unwrap().clone()).collect();
                type M = fn(&mut AttributeBuilder, &[Number]);
                let ms: [(usize, M); 4] = [
                    (6, |b, v| drop(b.number_greater(v))),
                    (7, |b, v| drop(b.number_greater_or_equal(v))),
                    (8, |b, v| drop(b.number_less(v))),
                    (9, |b, v| drop(b.number_less_or_equal(v))),
                ];
                for (op, m) in ms {
                    c.case(&format!("attribute builder {} {vs:?}", OPS[op].0), true, || {
                        let mut bl = AttributeBuilder::named_id();
                        m(&mut bl, &n);
                        attr_ok(bl, &E::Attr(k0(), Some((op, vs.clone(), false))))
                    });
                }
            }
            // the value of an existence test is given as a truth value, kept as text
            if b.is_none() && ai < 2 {
                for (yes, ci) in [(true, false), (false, false), (true, true), (false, true)] {
                    c.case(&format!("attribute builder ?= {yes} {ci}"), true, || {
                        let w = vec![A::Text(yes.to_string())];
                        let mut bl = AttributeBuilder::named_id();
                        bl.string_exists(yes, ci);
                        attr_ok(bl, &E::Attr(k0(), Some((5, w.clone(), ci))))?;
                        let mut bl = AttributeBuilder::named_id();
                        bl.compare(AttributeComparison::string_exists(yes));
                        attr_ok(bl, &E::Attr(k0(), Some((5, w.clone(), false))))?;
                        for l in [S::V(a.clone()), S::Ctx(vec![Seg::V(a.clone())])] {
                            let w = (l.clone(), 5, vec![S::V(w[0].clone())], false);
                            let mut b = ScopedAttributeBuilder::default();
                            b.string_exists(s_to(&l), yes);
                            b.assertion(ScopedAttributeAssertion::string_exists(s_to(&l), yes));
                            scoped_ok(b, &E::Scoped(None, vec![w.clone(), w]))?;
                        }
                        Ok(())
                    });
                }
            }
            // constructors of comparisons
            let one = vec![vs[0].clone()];
            let cons: Vec<(usize, Vec<A>, AttributeComparison)> = vec![
                (0, one.clone(), AttributeComparison::string_equal(v[0].clone())),
                (1, one.clone(), AttributeComparison::string_not_equal(v[0].clone())),
                (2, one.clone(), AttributeComparison::string_starts_with(v[0].clone())),
                (3, one.clone(), AttributeComparison::string_ends_with(v[0].clone())),
                (4, one.clone(), AttributeComparison::string_contains(v[0].clone())),
                (10, one.clone(), AttributeComparison::projection_equal(v[0].clone())),
                (11, one.clone(), AttributeComparison::projection_not_equal(v[0].clone())),
                (12, vs.clone(), AttributeComparison::projection_subset(&v)),
                (13, vs.clone(), AttributeComparison::projection_proper_subset(&v)),
            ];
            for (op, w, x) in cons {
                c.case(&format!("comparison constructor {} {w:?} ({vs:?})", OPS[op].0), true, || {
                    let mut bl = AttributeBuilder::named_id();
                    bl.compare(x);
                    attr_ok(bl, &E::Attr(k0(), Some((op, w.clone(), false))))
                });
            }
        }
        if let A::Int(_) | A::Flt(_) = a {
            let n = a_to(a).as_number().unwrap().clone();
            let cons = [
                (6, AttributeComparison::number_greater(n.clone())),
                (7, AttributeComparison::number_greater_or_equal(n.clone())),
                (8, AttributeComparison::number_less(n.clone())),
                (9, AttributeComparison::number_less_or_equal(n.clone())),
            ];
            for (op, x) in cons {
                c.case(&format!("comparison constructor {} {a:?}", OPS[op].0), true, || {
                    let mut bl = AttributeBuilder::named_id();
                    bl.compare(x);
                    attr_ok(bl, &E::Attr(k0(), Some((op, vec![a.clone()], false))))
                });
            }
        }
        // scoped
        let lhs: Vec<S> = at.iter().take(if c.thorough { 39 } else { 14 }).cloned().map(S::V).chain([S::Ctx(vec![Seg::V(a.clone()), Seg::F("x".into())])]).collect();
        for l in &lhs {
            for r in [S::V(a.clone()), S::Ctx(vec![Seg::V(a.clone())])] {
                let (lv, rv) = (s_to(l), s_to(&r));
                type M = fn(&mut ScopedAttributeBuilder, ScopedValue, ScopedValue, bool);
                let ms: [(usize, bool, M); 9] = [
                    (0, true, |b, l, r, c| drop(b.string_equal(l, r, c))),
                    (1, true, |b, l, r, c| drop(b.string_not_equal(l, r, c))),
                    (2, true, |b, l, r, c| drop(b.string_starts_with(l, r, c))),
                    (3, true, |b, l, r, c| drop(b.string_ends_with(l, r, c))),
                    (4, true, |b, l, r, c| drop(b.string_contains(l, r, c))),
                    (10, false, |b, l, r, _| drop(b.projection_equal(l, r))),
                    (11, false, |b, l, r, _| drop(b.projection_not_equal(l, r))),
                    (12, false, |b, l, r, _| drop(b.projection_subset(l, &[r]))),
                    (13, false, |b, l, r, _| drop(b.projection_proper_subset(l, &[r]))),
                ];
                for (op, cased, m) in ms {
                    for ci in [false, true] {
                        if ci && !cased {
                            continue;
                        }
                        c.case(&format!("scoped builder {} {l:?} {r:?} {ci} ({ai})", OPS[op].0), true, || {
                            let mut b = ScopedAttributeBuilder::default();
                            b.assertion(ScopedAttributeAssertion::new(s_to(&lone.0), OPS[0].1.clone(), &[s_to(&lone.2[0])]));
                            m(&mut b, lv.clone(), rv.clone(), ci);
                            scoped_ok(b, &E::Scoped(None, vec![lone.clone(), (l.clone(), op, vec![r.clone()], ci)]))
                        });
                    }
                }
                let cons = [
                    (0, ScopedAttributeAssertion::string_equal(lv.clone(), rv.clone())),
                    (1, ScopedAttributeAssertion::string_not_equal(lv.clone(), rv.clone())),
                    (2, ScopedAttributeAssertion::string_starts_with(lv.clone(), rv.clone())),
                    (3, ScopedAttributeAssertion::string_ends_with(lv.clone(), rv.clone())),
                    (4, ScopedAttributeAssertion::string_contains(lv.clone(), rv.clone())),
                    (10, ScopedAttributeAssertion::projection_equal(lv.clone(), rv.clone())),
                    (11, ScopedAttributeAssertion::projection_not_equal(lv.clone(), rv.clone())),
                    (12, ScopedAttributeAssertion::projection_subset(lv.clone(), &[rv.clone()])),
                    (13, ScopedAttributeAssertion::projection_proper_subset(lv.clone(), &[rv.clone()])),
                ];
                for (op, x) in cons {
                    c.case(&format!("assertion constructor {} {l:?} {r:?} ({ai})", OPS[op].0), true, || {
                        let mut b = ScopedAttributeBuilder::new_trait();
                        b.assertion(x);
                        scoped_ok(b, &E::Scoped(Some(K("trait".into(), vec![])), vec![(l.clone(), op, vec![r.clone()], false)]))
                    });
                }
            }
            if let A::Int(_) | A::Flt(_) = a {
                let n = a_to(a).as_number().unwrap().clone();
                let lv = s_to(l);
                type M = fn(&mut ScopedAttributeBuilder, ScopedValue, Number);
                let ms: [(usize, M, ScopedAttributeAssertion); 4] = [
                    (6, |b, l, n| drop(b.number_greater(l, n)), ScopedAttributeAssertion::number_greater(lv.clone(), n.clone())),
                    (7, |b, l, n| drop(b.number_greater_or_equal(l, n)), ScopedAttributeAssertion::number_greater_or_equal(lv.clone(), n.clone())),
                    (8, |b, l, n| drop(b.number_less(l, n)), ScopedAttributeAssertion::number_less(lv.clone(), n.clone())),
                    (9, |b, l, n| drop(b.number_less_or_equal(l, n)), ScopedAttributeAssertion::number_less_or_equal(lv.clone(), n.clone())),
                ];
                for (op, m, x) in ms {
                    c.case(&format!("scoped builder {} {l:?} {a:?}", OPS[op].0), true, || {
                        let mut b = ScopedAttributeBuilder::new_id();
                        m(&mut b, lv.clone(), n.clone());
                        b.assertion(x);
                        let w = (l.clone(), op, vec![S::V(a.clone())], false);
                        scoped_ok(b, &E::Scoped(Some(k0()), vec![w.clone(), w]))
                    });
                }
            }
        }
    }
    for (i, t) in trees(c.thorough).iter().enumerate() {
        c.case(&format!("selector {i} part by part: {t:?}"), true, || spells(&sel(t), t));
    }
    setters(c);
}

/// Every array and every other part of a selector changed from anything to anything.
/// Every conversion between the parts of selectors, given every value of its own part.
fn conversions(c: &mut Ctx) {
    fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
        if got == want { Ok(()) } else { Err(format!("{what}: {got:?} instead of {want:?}")) }
    }
    for t in ["", "text", "name", "a.b#C", "a b", "\"", "12", "\u{e9}"] {
        c.case(&format!("conversion of the text {t:?}"), true, || {
            same("value", [Value::from(t), Value::from(t.to_string())], [Value::Text(t.into()), Value::Text(t.into())])?;
            let w = || ScopedValue::Value(Value::Text(t.into()));
            same("scoped", [ScopedValue::from(t), ScopedValue::from(t.to_string()), ScopedValue::from(Value::Text(t.into()))], [w(), w(), w()])
        });
    }
    for i in [0, 1, -1, 255, i64::MAX, i64::MIN, (1 << 53) + 1] {
        c.case(&format!("conversion of the integer {i}"), true, || {
            let w = || Value::Number(Number::Integer(i));
            same("value", [Value::from(i), Value::from(Number::Integer(i))], [w(), w()])?;
            same("scoped", [ScopedValue::from(i), ScopedValue::from(Number::Integer(i))], [ScopedValue::Value(w()), ScopedValue::Value(w())])
        });
    }
    for f in [0.0, 1.0, -2.5, 0.1, 1e300, 5e-324, f64::INFINITY] {
        c.case(&format!("conversion of the number {f}"), true, || {
            let w = || Value::Number(Number::Float(f));
            same("value", [Value::from(f), Value::from(Number::Float(f))], [w(), w()])?;
            same("scoped", [ScopedValue::from(f), ScopedValue::from(Number::Float(f))], [ScopedValue::Value(w()), ScopedValue::Value(w())])
        });
    }
    for n in ["a", "_", "keys", "string", "A1"] {
        c.case(&format!("conversion of the name {n}"), true, || {
            let w = || Value::RootShapeIdentifier(ident(n));
            same("value", Value::from(ident(n)), w())?;
            same("scoped", ScopedValue::from(ident(n)), ScopedValue::Value(w()))?;
            same("segments", [KeyPathSegment::from(w()), KeyPathSegment::from(ident(n))], [KeyPathSegment::Value(w()), KeyPathSegment::FunctionProperty(ident(n))])?;
            same("key", Key::from(ident(n)), Key::new(ident(n)))?;
            same("key parts", (Key::from(ident(n)).identifier().clone(), Key::from(ident(n)).path().count()), (ident(n), 0))?;
            let a = AttributeSelector::from(Key::from(ident(n)));
            same("attribute", (a.key().clone(), a.comparison().clone()), (Key::new(ident(n)), None))?;
            same("variable", VariableReference::from(ident(n)).name().clone(), ident(n))?;
            let path = vec![KeyPathSegment::from(w()), KeyPathSegment::from(ident(n)), KeyPathSegment::from(w())];
            same("context", [ScopedValue::from(path.clone()), ScopedValue::from(&path[..])], [ScopedValue::ContextValue(path.clone()), ScopedValue::ContextValue(path)])
        });
    }
    for t in ["a.b#C", "a#c", "smithy.api#String"] {
        c.case(&format!("conversion of the id {t}"), true, || {
            let w = || Value::AbsoluteRootShapeIdentifier(sid(t));
            same("value", Value::from(sid(t)), w())?;
            same("scoped", ScopedValue::from(sid(t)), ScopedValue::Value(w()))?;
            same("segment", KeyPathSegment::from(w()), KeyPathSegment::Value(w()))
        });
    }
}
fn setters(c: &mut Ctx) {
    conversions(c);
    macro_rules! array {
        ($name:expr, $new:expr, $items:expr, $has:ident, $get:ident, $set:ident, $add:ident, $append:ident, $remove:ident) => {{
            let items = $items;
            for q in sequences(10, if c.thorough { 5 } else { 4 }) {
                c.case(&format!("{} after {q:?}", $name), true, || {
                    let (mut x, mut want) = ($new, vec![]);
                    x.$set(&[]);
                    for o in &q {
                        match o {
                            0 => {
                                x.$set(&[]);
                                want.clear();
                            }
                            1 => {
                                x.$set(&[items[0].clone(), items[1].clone(), items[0].clone()]);
                                want = vec![0, 1, 0];
                            }
                            2..=4 => {
                                x.$add(items[o - 2].clone());
                                want.push(o - 2);
                            }
                            5 => {
                                x.$append(&[items[1].clone(), items[1].clone()]);
                                want.extend([1, 1]);
                            }
                            6 => {
                                x.$append(&items);
                                want.extend([0, 1, 2]);
                            }
                            _ => {
                                x.$remove(&items[o - 7]);
                                want.retain(|i| *i != o - 7);
                            }
                        }
                        let got: Vec<_> = x.$get().cloned().collect();
                        let expected: Vec<_> = want.iter().map(|i| items[*i].clone()).collect();
                        if got != expected || x.$has() == want.is_empty() {
                            return Err(format!("{got:?} instead of {expected:?}, has {}", x.$has()));
                        }
                    }
                    Ok(())
                });
            }
        }};
    }
    let key = || Key::new(ident("k"));
    let v = [a_to(&A::Text("x".into())), a_to(&A::Int(1)), a_to(&A::Id("x".into()))];
    let sv = v.clone().map(ScopedValue::Value);
    let seg = [KeyPathSegment::Value(v[0].clone()), KeyPathSegment::FunctionProperty(ident("x")), KeyPathSegment::Value(v[2].clone())];
    let assertion = |i: usize| ScopedAttributeAssertion::new(sv[0].clone(), Comparator::StringEqual, &[sv[i].clone()]);
    let sels = [sel(&[E::Fwd]), sel(&[E::Rev]), sel(&[E::Fwd, E::Rev])];
    let es = [e_to(&E::Fwd), e_to(&E::Type(0)), e_to(&E::Ref("x".into()))];
    array!("the path of a key", key(), seg, has_path, path, set_path, add_path_segment, append_path, remove_path_segment);
    array!("the values of a comparison", AttributeComparison::new(Comparator::StringEqual, &v), v.clone(), has_rhs_values, rhs_values, set_rhs_values, add_value, append_rhs_values, remove_value);
    array!("the values of an assertion", assertion(1), sv.clone(), has_rhs_values, rhs_values, set_rhs_values, add_value, append_rhs_values, remove_value);
    array!("the assertions of a selector", ScopedAttributeSelector::new(&[assertion(2)]), [assertion(0), assertion(1), assertion(2)], has_assertions, assertions, set_assertions, add_assertion, append_assertions, remove_assertion);
    array!("the arguments of a function", Function::new(ident("f"), &sels), sels.clone(), has_arguments, arguments, set_arguments, add_argument, append_arguments, remove_argument);
    array!("the expressions of a selector", Selector::default(), es, has_expressions, expressions, set_expressions, add_expression, append_expressions, remove_expression);
    // one part set, the others left as they were
    let forms: Vec<E> = exprs().into_iter().step_by(if c.thorough { 3 } else { 11 }).chain(reps()).chain([E::Fn("f".into(), vec![vec![E::Fwd], vec![E::Rev]]), E::Def("v".into(), vec![E::Fwd])]).collect();
    for (i, from) in forms.iter().enumerate() {
        for (j, to) in forms.iter().enumerate() {
            if std::mem::discriminant(from) != std::mem::discriminant(to) {
                continue;
            }
            c.case(&format!("from {i} {from:?} to {j} {to:?}"), true, || {
                let is = |x: SelectorExpression, want: E| -> Result<(), String> {
                    match e_from(&x)? {
                        got if got == want && x == e_to(&want) => Ok(()),
                        got => Err(format!("{got:?} instead of {want:?}")),
                    }
                };
                match (from, to) {
                    (E::Attr(k, c), E::Attr(k2, c2)) => {
                        let SelectorExpression::AttributeSelector(old) = e_to(from) else { unreachable!() };
                        let mut x = old.clone();
                        x.set_key(k_to(k2));
                        is(x.clone().into(), E::Attr(k2.clone(), c.clone()))?;
                        x.unset_comparison();
                        is(x.into(), E::Attr(k2.clone(), None))?;
                        let mut kk = k_to(k);
                        kk.set_identifier(ident(&k2.0));
                        if k_from(&kk)? != K(k2.0.clone(), k.1.clone()) {
                            return Err("set_identifier".into());
                        }
                        if let Some((op2, v2, ci2)) = c2 {
                            let c2 = AttributeComparison::new(OPS[*op2].1.clone(), &v2.iter().map(a_to).collect::<Vec<_>>());
                            let mut x = old.clone();
                            x.set_comparison(c2);
                            is(x.into(), E::Attr(k.clone(), Some((*op2, v2.clone(), false))))?;
                            if let Some((op, v, ci)) = c {
                                let put = |f: &dyn Fn(&mut AttributeComparison), want: (usize, Vec<A>, bool)| {
                                    let (mut c, mut x) = (old.comparison().clone().unwrap(), old.clone());
                                    f(&mut c);
                                    x.set_comparison(c);
                                    is(x.into(), E::Attr(k.clone(), Some(want)))
                                };
                                put(&|c| c.set_comparator(OPS[*op2].1.clone()), (*op2, v.clone(), *ci))?;
                                put(&|c| c.set_case_insensitive(*ci2), (*op, v.clone(), *ci2))?;
                                put(&|c| c.set_rhs_values(&v2.iter().map(a_to).collect::<Vec<_>>()), (*op, v2.clone(), *ci))?;
                            }
                        }
                    }
                    (E::Scoped(k, v), E::Scoped(k2, v2)) => {
                        let SelectorExpression::ScopedAttributeSelector(old) = e_to(from) else { unreachable!() };
                        let SelectorExpression::ScopedAttributeSelector(new) = e_to(to) else { unreachable!() };
                        let mut x = old.clone();
                        match k2 {
                            Some(k2) => x.set_key(k_to(k2)),
                            None => x.unset_key(),
                        }
                        is(x.into(), E::Scoped(k2.clone(), v.clone()))?;
                        let mut x = old.clone();
                        x.set_assertions(&new.assertions().cloned().collect::<Vec<_>>());
                        is(x.into(), E::Scoped(k.clone(), v2.clone()))?;
                        let (w, w2) = (v[0].clone(), v2[0].clone());
                        let put = |f: &dyn Fn(&mut ScopedAttributeAssertion), want: (S, usize, Vec<S>, bool)| {
                            let (mut a, mut x) = (old.assertions().next().unwrap().clone(), old.clone());
                            f(&mut a);
                            x.set_assertions(&[a]);
                            is(x.into(), E::Scoped(k.clone(), vec![want]))
                        };
                        put(&|a| a.set_lhs_value(s_to(&w2.0)), (w2.0.clone(), w.1, w.2.clone(), w.3))?;
                        put(&|a| a.set_comparator(OPS[w2.1].1.clone()), (w.0.clone(), w2.1, w.2.clone(), w.3))?;
                        put(&|a| a.set_rhs_values(&w2.2.iter().map(s_to).collect::<Vec<_>>()), (w.0.clone(), w.1, w2.2.clone(), w.3))?;
                        put(&|a| a.set_case_insensitive(w2.3), (w.0.clone(), w.1, w.2.clone(), w2.3))?;
                    }
                    (E::Fn(n, a), E::Fn(n2, a2)) => {
                        let SelectorExpression::Function(mut x) = e_to(from) else { unreachable!() };
                        x.set_name(ident(n2));
                        is(x.clone().into(), E::Fn(n2.clone(), a.clone()))?;
                        x.set_name(ident(n));
                        x.set_arguments(&a2.iter().map(|a| sel(a)).collect::<Vec<_>>());
                        is(x.into(), E::Fn(n.clone(), a2.clone()))?;
                    }
                    (E::Def(n, s), E::Def(n2, s2)) => {
                        let SelectorExpression::VariableDefinition(mut x) = e_to(from) else { unreachable!() };
                        x.set_name(ident(n2));
                        is(x.clone().into(), E::Def(n2.clone(), s.clone()))?;
                        x.set_name(ident(n));
                        x.set_selector(sel(s2));
                        is(x.into(), E::Def(n.clone(), s2.clone()))?;
                    }
                    (E::Ref(_), E::Ref(n2)) => {
                        let SelectorExpression::VariableReference(mut x) = e_to(from) else { unreachable!() };
                        x.set_name(ident(n2));
                        is(x.into(), E::Ref(n2.clone()))?;
                    }
                    _ => is(e_to(to), to.clone())?,
                }
                if (e_to(from) == e_to(to)) != (from == to) || (e_to(from) != e_to(to)) != (from != to) {
                    return Err("the two are compared wrongly".into());
                }
                Ok(())
            });
        }
    }
}
