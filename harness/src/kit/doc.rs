//! A model as an author states it: names as written, statements in order. `resolve` is the
//! reference for name resolution and for what the statements mean together.
use super::spec::*;
use crate::props::merging::{combine, merge_tr, ref_merge};
use std::collections::{BTreeMap, BTreeSet};

pub const PRELUDE_SHAPES: [&str; 20] = [
    "String", "Blob", "BigInteger", "BigDecimal", "Timestamp", "Document", "Boolean", "PrimitiveBoolean", "Byte", "PrimitiveByte", "Short",
    "PrimitiveShort", "Integer", "PrimitiveInteger", "Long", "PrimitiveLong", "Float", "PrimitiveFloat", "Double", "PrimitiveDouble",
];
pub const PRELUDE_TRAITS: [&str; 56] = [
    "xmlFlattened", "references", "streaming", "requiresLength", "uniqueItems", "examples", "timestampFormat", "httpError", "httpBasicAuth",
    "documentation", "httpQuery", "suppress", "since", "trait", "httpBearerAuth", "httpPayload", "httpApiKeyAuth", "cors", "idRef", "unstable",
    "hostLabel", "private", "title", "required", "recommended", "enum", "idempotencyToken", "tags", "optionalAuth", "xmlAttribute", "xmlName",
    "httpHeader", "authDefinition", "resourceIdentifier", "mediaType", "httpChecksumRequired", "idempotent", "endpoint", "eventHeader",
    "sensitive", "error", "protocolDefinition", "deprecated", "httpPrefixHeaders", "eventPayload", "noReplace", "http",
    "externalDocumentation", "jsonName", "auth", "retryable", "httpDigestAuth", "range", "box", "paginated", "length",
];
/// further traits of the prelude, kept apart to keep the table above rectangular
pub const PRELUDE_TRAITS2: [&str; 4] = ["pattern", "readonly", "httpLabel", "xmlNamespace"];

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Doc {
    pub ns: String,
    pub meta: Vec<(String, V)>,
    pub uses: Vec<String>,
    pub defs: Vec<(String, Shape)>,
    pub applies: Vec<(String, String, Option<V>)>,
}

pub struct Names<'a> {
    ns: &'a str,
    imports: BTreeSet<&'a str>,
    defined: BTreeSet<String>,
    pub unresolved: BTreeSet<String>,
}
impl<'a> Names<'a> {
    pub fn of(d: &'a Doc) -> Names<'a> {
        Names {
            ns: &d.ns,
            imports: d.uses.iter().map(|s| s.as_str()).collect(),
            defined: d.defs.iter().map(|(n, _)| own(&d.ns, n)).collect(),
            unresolved: BTreeSet::new(),
        }
    }
    pub fn name(&mut self, n: &str, is_trait: bool) -> Result<String, ()> {
        if n.contains('#') {
            return Ok(n.to_string());
        }
        let im: Vec<&&str> = self.imports.iter().filter(|i| i.split('#').nth(1) == Some(n)).collect();
        let here = format!("{}#{n}", self.ns);
        match im.len() {
            0 => {}
            1 => return Ok(im[0].to_string()),
            _ => return Err(()),
        }
        if self.defined.contains(&here) {
            return Ok(here);
        }
        let in_prelude = if is_trait { PRELUDE_TRAITS.contains(&n) || PRELUDE_TRAITS2.contains(&n) } else { PRELUDE_SHAPES.contains(&n) };
        if in_prelude {
            return Ok(format!("smithy.api#{n}"));
        }
        self.unresolved.insert(here.clone());
        Ok(here)
    }
    fn traits(&mut self, t: &Traits) -> Result<Traits, ()> {
        let mut o = Traits::new();
        for (k, v) in t {
            // two spellings of one trait meet as a repeated trait
            let id = self.name(k, true)?;
            let v = match o.get(&id) {
                None => v.clone(),
                Some(x) => combine(x, v)?,
            };
            o.insert(id, v);
        }
        Ok(o)
    }
    fn names(&mut self, v: &[String]) -> Result<Vec<String>, ()> {
        v.iter().map(|x| self.name(x, false)).collect()
    }
    fn opt(&mut self, v: &Option<String>) -> Result<Option<String>, ()> {
        v.as_ref().map(|x| self.name(x, false)).transpose()
    }
    pub fn shape(&mut self, s: &Shape) -> Result<Shape, ()> {
        let mut b = s.body.clone();
        for m in b.members_mut() {
            m.target = self.name(&m.target, false)?;
            m.traits = self.traits(&m.traits)?;
        }
        match &mut b {
            Body::Service(x) => {
                x.operations = self.names(&x.operations)?;
                x.resources = self.names(&x.resources)?;
            }
            Body::Operation(x) => {
                x.input = self.opt(&x.input)?;
                x.output = self.opt(&x.output)?;
                x.errors = self.names(&x.errors)?;
            }
            Body::Resource(x) => {
                for v in x.identifiers.values_mut() {
                    *v = self.name(v, false)?;
                }
                for v in x.life.iter_mut() {
                    *v = self.opt(v)?;
                }
                x.operations = self.names(&x.operations)?;
                x.collection_operations = self.names(&x.collection_operations)?;
                x.resources = self.names(&x.resources)?;
            }
            _ => {}
        }
        Ok(Shape { traits: self.traits(&s.traits)?, body: b })
    }
}
pub fn own(ns: &str, n: &str) -> String {
    if n.contains('#') {
        n.to_string()
    } else {
        format!("{ns}#{n}")
    }
}

impl Doc {
    pub fn new(ns: &str) -> Doc {
        Doc { ns: ns.into(), ..Default::default() }
    }
    pub fn def(mut self, n: &str, s: Shape) -> Doc {
        self.defs.push((n.into(), s));
        self
    }
    /// The model stated, or Err when the statements contradict each other.
    pub fn resolve(&self) -> Result<Spec, ()> {
        let mut out = Spec::default();
        for (k, v) in &self.meta {
            let n = match out.metadata.get(k) {
                None => v.clone(),
                Some(o) => combine(&Some(o.clone()), &Some(v.clone()))?.unwrap(),
            };
            out.metadata.insert(k.clone(), n);
        }
        let mut names = Names::of(self);
        let mut shapes: BTreeMap<String, Shape> = BTreeMap::new();
        fn add(shapes: &mut BTreeMap<String, Shape>, id: String, s: Shape) -> Result<(), ()> {
            let n = match shapes.get(&id) {
                None => s,
                Some(o) => ref_merge(o, &s)?,
            };
            shapes.insert(id, n);
            Ok(())
        }
        let blank = |t: Traits| Shape { traits: t, body: Body::Unresolved };
        for (n, s) in &self.defs {
            let s = names.shape(s)?;
            add(&mut shapes, own(&self.ns, n), s)?;
        }
        for u in &self.uses {
            add(&mut shapes, u.clone(), blank(Traits::new()))?;
        }
        for (target, t, v) in &self.applies {
            let one = Traits::from([(names.name(t, true)?, v.clone())]);
            let (base, member) = match target.split_once('$') {
                Some((a, b)) => (a, Some(b)),
                None => (target.as_str(), None),
            };
            let at = names.name(base, false)?;
            match member.map(|m| (at.as_str(), m)) {
                None => add(&mut shapes, at, blank(one))?,
                Some((sh, m)) => {
                    let s = shapes.get_mut(sh).ok_or(())?;
                    let x = s.body.members_mut().into_iter().find(|x| x.name.eq_ignore_ascii_case(m)).ok_or(())?;
                    x.traits = merge_tr(&x.traits, &one)?;
                }
            }
        }
        for u in names.unresolved {
            add(&mut shapes, u, blank(Traits::new()))?;
        }
        out.shapes = shapes;
        Ok(out)
    }
    pub fn show(&self) -> String {
        let mut o = format!("namespace {}; ", self.ns);
        for (k, v) in &self.meta {
            o += &format!("metadata {k:?}={}; ", show_v(v));
        }
        for u in &self.uses {
            o += &format!("use {u}; ");
        }
        for (n, s) in &self.defs {
            o += &format!("{}; ", show_shape(n, s));
        }
        for (a, t, v) in &self.applies {
            o += &format!("apply {a} {}; ", show_traits(&Traits::from([(t.clone(), v.clone())])));
        }
        o
    }
}
