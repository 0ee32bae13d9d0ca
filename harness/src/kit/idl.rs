//! Smithy IDL 1.0, twice: a printer that turns a `Doc` into tokens with named gaps between them, and
//! a reader of the harness's own that decides what any text means.
use super::doc::Doc;
use super::spec::*;
use crate::props::ids::{ref_identifier, ref_namespace, ref_shape_id};
use crate::props::merging::combine;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------------------
// Printing

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Gap {
    /// nothing may stand here
    Tight,
    /// white space may stand here
    Opt,
    /// white space has to stand here
    Req,
    /// the end of a statement: a line break has to stand here
    Br,
    /// the end of a documentation comment: one line break, white space may follow
    Doc,
}
pub type Toks = Vec<(String, Gap)>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Style {
    /// 0: white space between elements; 1: commas between; 2: commas after each
    pub comma: u8,
    /// object trait values in braces instead of structure form
    pub brace: bool,
    /// quote every object key
    pub quote_keys: bool,
    /// documentation traits as documentation comments
    pub doc: bool,
    /// 0: shortest escapes, 1: \u escapes for everything, 2: every optional escape
    pub esc: u8,
    pub control: bool,
    /// annotations with empty parentheses
    pub parens: bool,
    /// targets in node values as quoted text
    pub quote_ids: bool,
}
pub const PLAIN: Style = Style { comma: 1, brace: false, quote_keys: false, doc: false, esc: 0, control: true, parens: false, quote_ids: false };
pub fn styles() -> Vec<Style> {
    let mut v = vec![PLAIN];
    for c in [0, 2] {
        v.push(Style { comma: c, ..PLAIN });
    }
    v.push(Style { brace: true, ..PLAIN });
    v.push(Style { quote_keys: true, ..PLAIN });
    v.push(Style { doc: true, ..PLAIN });
    v.push(Style { esc: 1, ..PLAIN });
    v.push(Style { esc: 2, comma: 0, ..PLAIN });
    v.push(Style { control: false, ..PLAIN });
    v.push(Style { parens: true, quote_ids: true, comma: 2, brace: true, quote_keys: true, doc: true, esc: 0, control: false });
    v
}

pub fn quote(s: &str, esc: u8) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        if esc == 1 && (ch as u32) < 0x10000 {
            o += &format!("\\u{:04x}", ch as u32);
            continue;
        }
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            '\u{8}' => o += "\\b",
            '\u{c}' => o += "\\f",
            '/' if esc == 2 => o += "\\/",
            '\'' if esc == 2 => o += "\\'",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04X}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Out {
    t: Toks,
    st: Style,
}
impl Out {
    fn p(&mut self, s: impl Into<String>, g: Gap) {
        self.t.push((s.into(), g));
    }
    fn last(&mut self, g: Gap) {
        self.t.last_mut().unwrap().1 = g;
    }
    /// Between element `i` of `n` and what follows.
    fn sep(&mut self, i: usize, n: usize) {
        let more = i + 1 < n;
        if self.st.comma == 2 || (self.st.comma == 1 && more) {
            self.last(Gap::Opt);
            self.p(",", Gap::Opt);
        } else {
            self.last(if more { Gap::Req } else { Gap::Opt });
        }
    }
    fn key(&mut self, k: &str) {
        let t = if self.st.quote_keys || !ref_identifier(k) { quote(k, self.st.esc) } else { k.to_string() };
        self.p(t, Gap::Opt);
    }
    fn pairs<'a>(&mut self, o: impl ExactSizeIterator<Item = (&'a String, &'a V)>) {
        let n = o.len();
        for (i, (k, v)) in o.enumerate() {
            self.key(k);
            self.p(":", Gap::Opt);
            self.value(v);
            self.sep(i, n);
        }
    }
    fn value(&mut self, v: &V) {
        match v {
            V::None => self.p("null", Gap::Opt),
            V::Bool(b) => self.p(b.to_string(), Gap::Opt),
            V::Int(i) => self.p(i.to_string(), Gap::Opt),
            V::Float(f) => self.p(format!("{:?}", f.0), Gap::Opt),
            V::Str(s) => {
                let q = quote(s, self.st.esc);
                self.p(q, Gap::Opt)
            }
            V::Arr(a) => {
                self.p("[", Gap::Opt);
                for (i, x) in a.iter().enumerate() {
                    self.value(x);
                    self.sep(i, a.len());
                }
                self.p("]", Gap::Opt);
            }
            V::Obj(o) => {
                self.p("{", Gap::Opt);
                self.pairs(o.iter());
                self.p("}", Gap::Opt);
            }
        }
    }
    fn a_trait(&mut self, k: &str, v: &Option<V>) {
        let empty = match v {
            None => true,
            Some(V::Obj(o)) => o.is_empty(),
            _ => false,
        };
        if empty && !self.st.brace {
            self.p(format!("@{k}"), Gap::Tight);
            if self.st.parens {
                self.p("(", Gap::Opt);
                self.p(")", Gap::Opt);
            }
            self.last(Gap::Opt);
            return;
        }
        self.p(format!("@{k}"), Gap::Tight);
        self.p("(", Gap::Opt);
        match v {
            Some(V::Obj(o)) if !self.st.brace => self.pairs(o.iter()),
            Some(v) => self.value(v),
            None => {}
        }
        self.last(Gap::Opt);
        self.p(")", Gap::Opt);
    }
    fn traits(&mut self, t: &Traits) {
        let mut rest = t.clone();
        if self.st.doc {
            for k in ["documentation", "smithy.api#documentation"] {
                if let Some(Some(V::Str(s))) = t.get(k) {
                    let fits = s.split('\n').all(|l| !l.starts_with(char::is_whitespace) && l.chars().all(|c| c as u32 >= 0x20 && c as u32 != 0x7f && !(0x80..0xa0).contains(&(c as u32))) && l.trim() == l);
                    if fits {
                        for (i, l) in s.split('\n').enumerate() {
                            let space = if l.is_empty() || i % 2 == 1 { "" } else { " " };
                            self.p(format!("///{space}{l}"), Gap::Doc);
                        }
                        rest.remove(k);
                        break;
                    }
                }
            }
        }
        for (k, v) in &rest {
            self.a_trait(k, v);
            // a trait without a value may not run into the next word
            self.last(Gap::Req);
        }
    }
    fn member(&mut self, m: &Mem) {
        self.traits(&m.traits);
        self.p(&m.name, Gap::Opt);
        self.p(":", Gap::Opt);
        self.p(&m.target, Gap::Opt);
    }
    fn members<'a>(&mut self, ms: impl ExactSizeIterator<Item = &'a Mem>) {
        self.p("{", Gap::Opt);
        let n = ms.len();
        for (i, m) in ms.enumerate() {
            self.member(m);
            self.sep(i, n);
        }
        self.p("}", Gap::Opt);
    }
    fn id(&mut self, t: &str) {
        let t = if self.st.quote_ids { quote(t, self.st.esc) } else { t.to_string() };
        self.p(t, Gap::Opt);
    }
    fn ids(&mut self, v: &[String]) {
        self.p("[", Gap::Opt);
        for (i, x) in v.iter().enumerate() {
            self.id(x);
            self.sep(i, v.len());
        }
        self.p("]", Gap::Opt);
    }
    fn props(&mut self, b: &Body) {
        enum P<'a> {
            Id(&'a str),
            Ids(&'a [String]),
            Text(&'a str),
            Renames(&'a BTreeMap<String, String>),
            Idents(&'a BTreeMap<String, String>),
        }
        let mut v: Vec<(&str, P)> = vec![];
        match b {
            Body::Service(s) => {
                v.push(("version", P::Text(&s.version)));
                if !s.operations.is_empty() {
                    v.push(("operations", P::Ids(&s.operations)));
                }
                if !s.resources.is_empty() {
                    v.push(("resources", P::Ids(&s.resources)));
                }
                if !s.renames.is_empty() {
                    v.push(("rename", P::Renames(&s.renames)));
                }
            }
            Body::Operation(o) => {
                if let Some(i) = &o.input {
                    v.push(("input", P::Id(i)));
                }
                if let Some(i) = &o.output {
                    v.push(("output", P::Id(i)));
                }
                if !o.errors.is_empty() {
                    v.push(("errors", P::Ids(&o.errors)));
                }
            }
            Body::Resource(r) => {
                if !r.identifiers.is_empty() {
                    v.push(("identifiers", P::Idents(&r.identifiers)));
                }
                for (i, n) in LIFE.iter().enumerate() {
                    if let Some(x) = &r.life[i] {
                        v.push((n, P::Id(x)));
                    }
                }
                if !r.operations.is_empty() {
                    v.push(("operations", P::Ids(&r.operations)));
                }
                if !r.collection_operations.is_empty() {
                    v.push(("collectionOperations", P::Ids(&r.collection_operations)));
                }
                if !r.resources.is_empty() {
                    v.push(("resources", P::Ids(&r.resources)));
                }
            }
            _ => unreachable!(),
        }
        self.p("{", Gap::Opt);
        let n = v.len();
        for (i, (k, x)) in v.into_iter().enumerate() {
            self.key(k);
            self.p(":", Gap::Opt);
            match x {
                P::Id(t) => self.id(t),
                P::Ids(t) => self.ids(t),
                P::Text(t) => {
                    let q = quote(t, self.st.esc);
                    self.p(q, Gap::Opt)
                }
                P::Renames(m) => {
                    let o: BTreeMap<String, V> = m.iter().map(|(k, v)| (k.clone(), V::Str(v.clone()))).collect();
                    self.value(&V::Obj(o));
                }
                P::Idents(m) => {
                    self.p("{", Gap::Opt);
                    for (i, (k, v)) in m.iter().enumerate() {
                        self.key(k);
                        self.p(":", Gap::Opt);
                        self.id(v);
                        self.sep(i, m.len());
                    }
                    self.p("}", Gap::Opt);
                }
            }
            self.sep(i, n);
        }
        self.p("}", Gap::Opt);
    }
    fn shape(&mut self, n: &str, s: &Shape) {
        self.traits(&s.traits);
        self.p(s.body.kind(), Gap::Req);
        self.p(n, Gap::Opt);
        match &s.body {
            Body::Simple(_) => {}
            Body::List(m) | Body::Set(m) => self.members([m].into_iter()),
            Body::Map(k, v) => self.members([k, v].into_iter()),
            Body::Structure(ms) | Body::Union(ms) => self.members(ms.values()),
            Body::Unresolved => panic!("harness: unresolved shapes have no statement"),
            b => self.props(b),
        }
        self.last(Gap::Br);
    }
}

/// One token list per statement, so that statements can be reordered.
pub struct Printed {
    pub control: Vec<Toks>,
    pub meta: Vec<Toks>,
    pub namespace: Vec<Toks>,
    pub uses: Vec<Toks>,
    pub shapes: Vec<Toks>,
}
pub fn print(d: &Doc, st: Style) -> Printed {
    let one = |f: &dyn Fn(&mut Out)| -> Toks {
        let mut o = Out { t: vec![], st };
        f(&mut o);
        o.last(Gap::Br);
        o.t
    };
    let mut p = Printed { control: vec![], meta: vec![], namespace: vec![], uses: vec![], shapes: vec![] };
    if st.control {
        p.control.push(one(&|o| {
            o.p("$", Gap::Tight);
            o.p("version", Gap::Opt);
            o.p(":", Gap::Opt);
            o.p("\"1.0\"", Gap::Opt);
        }));
    }
    for (k, v) in &d.meta {
        p.meta.push(one(&|o| {
            o.p("metadata", Gap::Req);
            o.key(k);
            o.p("=", Gap::Opt);
            o.value(v);
        }));
    }
    if !d.ns.is_empty() {
        p.namespace.push(one(&|o| {
            o.p("namespace", Gap::Req);
            o.p(&d.ns, Gap::Opt);
        }));
    }
    for u in &d.uses {
        p.uses.push(one(&|o| {
            o.p("use", Gap::Req);
            o.p(u, Gap::Opt);
        }));
    }
    for (n, s) in &d.defs {
        p.shapes.push(one(&|o| o.shape(n, s)));
    }
    for (t, tr, v) in &d.applies {
        p.shapes.push(one(&|o| {
            o.p("apply", Gap::Req);
            o.p(t, Gap::Req);
            o.a_trait(tr, v);
        }));
    }
    p
}
impl Printed {
    pub fn toks(&self) -> Toks {
        [&self.control, &self.meta, &self.namespace, &self.uses, &self.shapes].into_iter().flatten().flatten().cloned().collect()
    }
    pub fn text(&self) -> String {
        layout(&self.toks(), &|_, g| usual(g).to_string())
    }
}
pub fn usual(g: Gap) -> &'static str {
    match g {
        Gap::Tight => "",
        Gap::Opt | Gap::Req => " ",
        Gap::Br | Gap::Doc => "\n",
    }
}
pub fn layout(t: &Toks, gap: &dyn Fn(usize, Gap) -> String) -> String {
    let mut o = String::new();
    for (i, (s, g)) in t.iter().enumerate() {
        o += s;
        o += &gap(i, *g);
    }
    o
}

// ------------------------------------------------------------------------------------------------
// Reading

pub enum Stop {
    Refuse,
    Free,
}
type R<T> = Result<T, Stop>;

pub struct Read {
    pub doc: Doc,
    /// the text takes liberties: it may be refused as well
    pub lax: bool,
    /// what the text reads as with the three deviations the repository's own tests insist on (see
    /// known_findings.txt): quoted keys of objects inside values keep their quotes, an escaped backslash
    /// stays two, and the traits of the member of a list or set are dropped
    pub pinned: Option<Doc>,
}

struct P<'a> {
    s: &'a str,
    i: usize,
    lax: bool,
    depth: usize,
    pinned: bool,
    /// inside the properties of a service, operation or resource
    props: bool,
    dropped: bool,
}

pub const SHAPE_KEYWORDS: [&str; 8] = ["list", "set", "map", "structure", "union", "service", "operation", "resource"];

pub fn read(s: &str) -> R<Read> {
    let mut p = P { s, i: 0, lax: false, depth: 0, pinned: false, props: false, dropped: false };
    let doc = p.idl();
    let mut q = P { s, i: 0, lax: false, depth: 0, pinned: true, props: false, dropped: false };
    match (doc, q.idl()) {
        (Ok(doc), Ok(other)) => Ok(Read { pinned: if doc == other { None } else { Some(other) }, doc, lax: p.lax }),
        (Ok(_), Err(_)) | (Err(Stop::Refuse), Ok(_)) => Err(Stop::Free),
        (Err(e), _) => Err(e),
    }
}

fn refuse<T>() -> R<T> {
    Err(Stop::Refuse)
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            refuse()
        }
    }
    /// Skip white space; documentation comments only where asked. Returns (anything, a line break).
    fn ws(&mut self) -> (bool, bool) {
        let a = self.i;
        let mut nl = false;
        loop {
            match self.peek() {
                Some(' ' | '\t' | ',') => self.i += 1,
                Some('\n') => {
                    self.i += 1;
                    nl = true;
                }
                Some('\r') => {
                    if !self.rest().starts_with("\r\n") {
                        self.lax = true;
                    }
                    self.i += 1;
                    nl = true;
                }
                Some('/') if self.rest().starts_with("//") && !self.rest().starts_with("///") => {
                    self.line();
                    nl = true;
                }
                _ => return (self.i > a, nl),
            }
        }
    }
    /// The rest of the line, past its end.
    fn line(&mut self) -> &'a str {
        let r = self.rest();
        let n = r.find(['\n', '\r']).unwrap_or(r.len());
        let t = &r[..n];
        if t.chars().any(|c| (c as u32) < 0x20 && c != '\t') {
            self.lax = true;
        }
        self.i += n;
        if self.peek() == Some('\r') {
            self.i += 1;
            if self.peek() != Some('\n') {
                self.lax = true;
            }
        }
        if self.peek() == Some('\n') {
            self.i += 1;
        } else if self.i == self.s.len() {
            // a comment at the very end
            self.lax = true;
        }
        t
    }
    /// White space with documentation comments in it, whose lines are returned.
    fn docs(&mut self) -> R<Vec<String>> {
        let mut out = vec![];
        loop {
            self.ws();
            if self.rest().starts_with("///") {
                self.i += 3;
                let l = self.line();
                let l = l.strip_prefix(' ').unwrap_or(l);
                if l.starts_with(char::is_whitespace) || l.starts_with('/') {
                    return Err(Stop::Free);
                }
                out.push(l.to_string());
            } else {
                return Ok(out);
            }
        }
    }
    fn word(&mut self) -> &'a str {
        let r = self.rest();
        let n = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(r.len());
        self.i += n;
        &r[..n]
    }
    fn id_text(&mut self) -> &'a str {
        let r = self.rest();
        let n = r.find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '#' | '$'))).unwrap_or(r.len());
        self.i += n;
        &r[..n]
    }
    fn identifier(&mut self) -> R<String> {
        let w = self.word();
        if ref_identifier(w) {
            Ok(w.to_string())
        } else {
            refuse()
        }
    }
    /// An absolute or relative shape id.
    fn shape_id(&mut self, member: bool) -> R<String> {
        let t = self.id_text();
        let ok = match t.contains('#') {
            true => match ref_shape_id(t) {
                Some((_, _, m)) => member || m.is_none(),
                None => false,
            },
            false => match t.split_once('$') {
                Some((a, b)) => member && ref_identifier(a) && ref_identifier(b),
                None => ref_identifier(t),
            },
        };
        if ok {
            Ok(t.to_string())
        } else if ref_shape_id(t).is_some() || t.split('$').all(ref_identifier) {
            // a member id where a shape is meant
            Err(Stop::Free)
        } else {
            refuse()
        }
    }
    fn gap_after_word(&mut self) -> R<()> {
        if !self.ws().0 {
            self.lax = true;
        }
        Ok(())
    }
    fn end(&mut self) {
        let (_, nl) = self.ws();
        if !nl && self.i < self.s.len() && !self.rest().starts_with("///") {
            // the statement is not ended by a line break
            self.lax = true;
        } else if !nl && self.rest().starts_with("///") {
            self.lax = true;
        }
    }
    fn idl(&mut self) -> R<Doc> {
        let mut d = Doc::default();
        let mut versions = false;
        self.ws();
        while self.eat("$") {
            if self.ws().0 {
                self.lax = true;
            }
            let k = self.key()?;
            self.ws();
            self.need(":")?;
            self.ws();
            let v = self.value()?;
            if k == "version" {
                if std::mem::replace(&mut versions, true) {
                    return refuse();
                }
                match v {
                    V::Str(s) if s == "1.0" => {}
                    V::Str(s) if s == "1" => self.lax = true,
                    V::Float(F(f)) if f == 1.0 => self.lax = true,
                    V::Int(1) => self.lax = true,
                    _ => return refuse(),
                }
            } else {
                self.lax = true;
            }
            self.end();
        }
        while self.at_word("metadata") {
            self.i += 8;
            self.gap_after_word()?;
            let k = self.key()?;
            self.ws();
            self.need("=")?;
            self.ws();
            let v = self.value()?;
            d.meta.push((k, v));
            self.end();
        }
        if self.at_word("namespace") {
            self.i += 9;
            self.gap_after_word()?;
            let t = self.id_text();
            if !ref_namespace(t) {
                return refuse();
            }
            d.ns = t.to_string();
            self.end();
            while self.at_word("use") {
                self.i += 3;
                self.gap_after_word()?;
                let t = self.id_text();
                match ref_shape_id(t) {
                    Some((_, _, None)) => d.uses.push(t.to_string()),
                    _ => return refuse(),
                }
                self.end();
            }
            while self.i < self.s.len() {
                self.statement(&mut d)?;
            }
        }
        if self.i < self.s.len() {
            if self.rest().starts_with("///") {
                return Err(Stop::Free);
            }
            return refuse();
        }
        Ok(d)
    }
    fn at_word(&self, w: &str) -> bool {
        self.rest().starts_with(w) && !self.rest()[w.len()..].starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_')
    }
    fn key(&mut self) -> R<String> {
        if self.rest().starts_with('"') {
            if self.rest().starts_with("\"\"\"") {
                return Err(Stop::Free);
            }
            self.quoted()
        } else {
            self.identifier()
        }
    }
    fn statement(&mut self, d: &mut Doc) -> R<()> {
        let docs = self.docs()?;
        if self.i == self.s.len() {
            return if docs.is_empty() { Ok(()) } else { Err(Stop::Free) };
        }
        let traits = self.traits(&docs)?;
        if self.rest().starts_with("///") {
            return Err(Stop::Free);
        }
        let w = self.word();
        if w == "apply" {
            if !traits.is_empty() {
                return refuse();
            }
            self.gap_after_word()?;
            let t = self.shape_id(true)?;
            if !self.ws().0 {
                self.lax = true;
            }
            let (n, v) = self.a_trait()?;
            d.applies.push((t, n, Some(v)));
            self.end();
            return Ok(());
        }
        if !SIMPLE.contains(&w) && !SHAPE_KEYWORDS.contains(&w) {
            return refuse();
        }
        self.gap_after_word()?;
        let name = self.identifier()?;
        let body = if SIMPLE.contains(&w) {
            Body::Simple(w.to_string())
        } else {
            self.ws();
            match w {
                "list" | "set" => {
                    self.dropped = self.pinned;
                    let ms = self.members();
                    self.dropped = false;
                    let mut ms = ms?;
                    let Some(mut m) = ms.remove("member") else {
                        return Err(if ms.keys().any(|k| k.eq_ignore_ascii_case("member")) { Stop::Free } else { Stop::Refuse });
                    };
                    if !ms.is_empty() {
                        return refuse();
                    }
                    if self.pinned {
                        m.traits.clear();
                    }
                    if w == "list" {
                        Body::List(m)
                    } else {
                        Body::Set(m)
                    }
                }
                "map" => {
                    let mut ms = self.members()?;
                    let k = ms.remove("key").ok_or(Stop::Refuse)?;
                    let v = ms.remove("value").ok_or(Stop::Refuse)?;
                    if !ms.is_empty() {
                        return refuse();
                    }
                    Body::Map(k, v)
                }
                "structure" => Body::Structure(self.members()?),
                "union" => Body::Union(self.members()?),
                _ => {
                    if !self.rest().starts_with('{') {
                        return refuse();
                    }
                    self.props = true;
                    let v = self.value();
                    self.props = false;
                    match v? {
                        V::Obj(o) => self.properties(w, o)?,
                        _ => return refuse(),
                    }
                }
            }
        };
        d.defs.push((name, Shape { traits, body }));
        self.end();
        Ok(())
    }
    fn traits(&mut self, docs: &[String]) -> R<Traits> {
        let mut t = Traits::new();
        if !docs.is_empty() {
            t.insert("smithy.api#documentation".into(), Some(V::Str(docs.join("\n"))));
        }
        while self.rest().starts_with('@') {
            let (k, v) = self.a_trait()?;
            let v = match t.get(&k) {
                None => Some(v),
                Some(o) => match combine(o, &Some(v)) {
                    Ok(v) => v,
                    // traits that are dropped do not contradict each other
                    Err(_) if self.dropped => None,
                    Err(_) => return refuse(),
                },
            };
            t.insert(k, v);
            if !self.ws().0 && !self.rest().starts_with('@') {
                // `@a(1)string` and the like
                self.lax = true;
            }
        }
        Ok(t)
    }
    fn a_trait(&mut self) -> R<(String, V)> {
        self.need("@")?;
        let id = self.shape_id(false)?;
        let mut v = V::Obj(BTreeMap::new());
        if self.eat("(") {
            self.ws();
            if !self.eat(")") {
                // structure form when a key and a colon are next
                let at = self.i;
                let lax = self.lax;
                let is_struct = match self.key() {
                    Ok(_) => {
                        self.ws();
                        self.rest().starts_with(':')
                    }
                    _ => false,
                };
                self.i = at;
                self.lax = lax;
                v = if is_struct { V::Obj(self.pairs(")")?) } else {
                    let v = self.value()?;
                    self.ws();
                    v
                };
                self.need(")")?;
            }
        }
        Ok((id, v))
    }
    /// Key value pairs up to (not including) `close`.
    fn pairs(&mut self, close: &str) -> R<BTreeMap<String, V>> {
        let mut o = BTreeMap::new();
        let mut sep = true;
        while !self.rest().starts_with(close) {
            if !sep {
                self.lax = true;
            }
            let at = self.i;
            let mut k = self.key()?;
            if self.pinned && !self.props && close == "}" && self.s[at..].starts_with('"') {
                k = self.s[at..self.i].to_string();
            }
            self.ws();
            self.need(":")?;
            self.ws();
            let v = self.value()?;
            // a key stands once in an object
            if o.insert(k, v).is_some() {
                return refuse();
            }
            sep = self.ws().0;
        }
        Ok(o)
    }
    fn members(&mut self) -> R<BTreeMap<String, Mem>> {
        self.need("{")?;
        let mut o: BTreeMap<String, Mem> = BTreeMap::new();
        let mut sep = true;
        loop {
            let docs = self.docs()?;
            if self.eat("}") {
                if !docs.is_empty() {
                    return Err(Stop::Free);
                }
                return Ok(o);
            }
            if !sep {
                self.lax = true;
            }
            let traits = self.traits(&docs)?;
            if self.rest().starts_with("///") {
                return Err(Stop::Free);
            }
            let name = self.identifier()?;
            self.ws();
            self.need(":")?;
            self.ws();
            let target = self.shape_id(false)?;
            // a member stands once; two local names of different shapes cannot be one target
            if let Some(m) = o.values().find(|m| m.name.eq_ignore_ascii_case(&name)) {
                let local = |t: &str| !t.contains('#');
                return Err(if local(&m.target) && local(&target) && !m.target.eq_ignore_ascii_case(&target) { Stop::Refuse } else { Stop::Free });
            }
            o.insert(name.clone(), Mem { name, target, traits });
            sep = self.ws().0;
        }
    }
    fn value(&mut self) -> R<V> {
        self.depth += 1;
        if self.depth > 60 {
            return Err(Stop::Free);
        }
        let v = self.value1();
        self.depth -= 1;
        v
    }
    fn value1(&mut self) -> R<V> {
        match self.peek() {
            Some('[') => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                let mut sep = true;
                while !self.eat("]") {
                    if !sep {
                        self.lax = true;
                    }
                    a.push(self.value()?);
                    sep = self.ws().0;
                }
                Ok(V::Arr(a))
            }
            Some('{') => {
                self.i += 1;
                self.ws();
                let o = self.pairs("}")?;
                self.need("}")?;
                Ok(V::Obj(o))
            }
            Some('"') => {
                if self.rest().starts_with("\"\"\"") {
                    self.block()
                } else {
                    self.quoted().map(V::Str)
                }
            }
            Some('-' | '0'..='9') => self.number(),
            Some(_) => {
                let t = self.id_text();
                match t {
                    "" => refuse(),
                    "true" => Ok(V::Bool(true)),
                    "false" => Ok(V::Bool(false)),
                    "null" => Ok(V::None),
                    t => {
                        let ok = match t.contains('#') {
                            true => ref_shape_id(t).is_some(),
                            false => match t.split_once('$') {
                                Some((a, b)) => ref_identifier(a) && ref_identifier(b),
                                None => ref_identifier(t),
                            },
                        };
                        if ok {
                            Ok(V::Str(t.to_string()))
                        } else {
                            refuse()
                        }
                    }
                }
            }
            None => refuse(),
        }
    }
    fn number(&mut self) -> R<V> {
        let a = self.i;
        self.eat("-");
        let digits = |p: &mut Self| -> usize {
            let r = p.rest();
            let n = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
            p.i += n;
            n
        };
        let zero = self.rest().starts_with('0');
        match digits(self) {
            0 => return refuse(),
            n if n > 1 && zero => return Err(Stop::Free),
            _ => {}
        }
        let mut float = false;
        if self.rest().starts_with('.') {
            self.i += 1;
            float = true;
            if digits(self) == 0 {
                return refuse();
            }
        }
        if self.rest().starts_with(['e', 'E']) {
            self.i += 1;
            float = true;
            if !self.eat("+") {
                self.eat("-");
            }
            if digits(self) == 0 {
                return refuse();
            }
        }
        if self.rest().starts_with(|c: char| c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '-' | '+')) {
            return Err(Stop::Free);
        }
        let t = &self.s[a..self.i];
        if !float {
            return match t.parse::<i64>() {
                Ok(i) if t != "-0" => Ok(V::Int(i)),
                _ => Err(Stop::Free),
            };
        }
        match t.parse::<f64>() {
            Ok(f) if f.is_finite() => Ok(V::Float(F(f))),
            // beyond floating point, infinity is not a node value
            _ => refuse(),
        }
    }
    fn hex4(&self, at: usize) -> Option<u32> {
        let h = self.s.as_bytes().get(at..at + 4)?;
        if h.iter().all(u8::is_ascii_hexdigit) {
            u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).ok()
        } else {
            None
        }
    }
    /// One escape sequence, the backslash is next.
    fn escape(&mut self, o: &mut String) -> R<()> {
        self.i += 1;
        let c = self.peek().ok_or(Stop::Refuse)?;
        self.i += c.len_utf8();
        match c {
            '\\' if self.pinned => o.push_str("\\\\"),
            '"' | '\\' | '\'' | '/' => o.push(c),
            'b' => o.push('\u{8}'),
            'f' => o.push('\u{c}'),
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            'u' => match self.hex4(self.i) {
                None => return Err(Stop::Free),
                Some(h) => {
                    self.i += 4;
                    if (0xd800..0xdc00).contains(&h) && self.rest().starts_with("\\u") {
                        match self.hex4(self.i + 2) {
                            Some(l) if (0xdc00..0xe000).contains(&l) => {
                                self.i += 6;
                                o.push(char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00)).unwrap());
                                return Ok(());
                            }
                            _ => return Err(Stop::Free),
                        }
                    }
                    o.push(char::from_u32(h).ok_or(Stop::Free)?)
                }
            },
            c if (c as u32) < 0x20 => return Err(Stop::Free),
            c => {
                o.push('\\');
                o.push(c);
            }
        }
        Ok(())
    }
    fn quoted(&mut self) -> R<String> {
        self.need("\"")?;
        let mut o = String::new();
        loop {
            match self.peek() {
                None => return refuse(),
                Some('"') => {
                    self.i += 1;
                    return Ok(o);
                }
                Some('\\') => self.escape(&mut o)?,
                Some(c) if (c as u32) < 0x20 => {
                    // line breaks and tabs inside quotes: the versions of the grammar differ; see
                    // whether the string ends at all
                    let mut esc = false;
                    let closed = self.rest().chars().any(|c| {
                        let hit = c == '"' && !esc;
                        esc = c == '\\' && !esc;
                        hit
                    });
                    return if closed { Err(Stop::Free) } else { refuse() };
                }
                Some(c) => {
                    o.push(c);
                    self.i += c.len_utf8();
                }
            }
        }
    }
    fn block(&mut self) -> R<V> {
        self.i += 3;
        let mut o = String::new();
        let mut free = false;
        let start = self.i;
        loop {
            if self.rest().starts_with("\"\"\"") {
                if self.rest().starts_with("\"\"\"\"") {
                    free = true;
                }
                let raw = &self.s[start..self.i];
                self.i += 3;
                // only blocks whose lines have nothing to strip are judged
                let body = match raw.strip_prefix('\n') {
                    Some(b) if !b.starts_with(['\n', ' ', '\t']) => b,
                    _ => return Err(Stop::Free),
                };
                if free || raw.contains('\r') || body.split('\n').any(|l| l.starts_with([' ', '\t']) || l.ends_with([' ', '\t'])) {
                    return Err(Stop::Free);
                }
                return Ok(V::Str(o.strip_prefix('\n').unwrap_or(&o).to_string()));
            }
            match self.peek() {
                None => return refuse(),
                Some('\\') => {
                    if let Err(e) = self.escape(&mut o) {
                        match e {
                            Stop::Free => free = true,
                            e => return Err(e),
                        }
                    }
                }
                Some(c) => {
                    if (c as u32) < 0x20 && c != '\n' {
                        free = true;
                    }
                    o.push(c);
                    self.i += c.len_utf8();
                }
            }
        }
    }
    fn properties(&mut self, kind: &str, mut o: BTreeMap<String, V>) -> R<Body> {
        fn id(v: V) -> R<String> {
            let V::Str(t) = v else { return refuse() };
            let ok = match t.contains('#') {
                true => match ref_shape_id(&t) {
                    Some((_, _, Some(_))) => return Err(Stop::Free),
                    x => x.is_some(),
                },
                false => {
                    if t.contains('$') && t.split('$').count() == 2 && t.split('$').all(ref_identifier) {
                        return Err(Stop::Free);
                    }
                    ref_identifier(&t)
                }
            };
            if ok {
                Ok(t)
            } else {
                refuse()
            }
        }
        fn list(v: Option<V>) -> R<Vec<String>> {
            match v {
                None => Ok(vec![]),
                Some(V::Arr(a)) => a.into_iter().map(id).collect(),
                Some(_) => refuse(),
            }
        }
        let b = match kind {
            "service" => {
                let version = match o.remove("version") {
                    Some(V::Str(s)) if !s.is_empty() => s,
                    _ => return refuse(),
                };
                let mut renames = BTreeMap::new();
                match o.remove("rename") {
                    None => {}
                    Some(V::Obj(m)) => {
                        for (k, v) in m {
                            let V::Str(v) = v else { return refuse() };
                            if !ref_identifier(&v) {
                                return refuse();
                            }
                            let k = id(V::Str(k))?;
                            if !k.contains('#') {
                                return Err(Stop::Free);
                            }
                            renames.insert(k, v);
                        }
                    }
                    Some(_) => return refuse(),
                }
                Body::Service(Svc { version, operations: list(o.remove("operations"))?, resources: list(o.remove("resources"))?, renames })
            }
            "operation" => Body::Operation(Op { input: o.remove("input").map(id).transpose()?, output: o.remove("output").map(id).transpose()?, errors: list(o.remove("errors"))? }),
            _ => {
                let mut identifiers = BTreeMap::new();
                match o.remove("identifiers") {
                    None => {}
                    Some(V::Obj(m)) => {
                        for (k, v) in m {
                            if !ref_identifier(&k) {
                                return refuse();
                            }
                            identifiers.insert(k, id(v)?);
                        }
                    }
                    Some(_) => return refuse(),
                }
                let mut life: [Option<String>; 6] = Default::default();
                for (i, n) in LIFE.iter().enumerate() {
                    life[i] = o.remove(*n).map(id).transpose()?;
                }
                Body::Resource(Res { identifiers, life, operations: list(o.remove("operations"))?, collection_operations: list(o.remove("collectionOperations"))?, resources: list(o.remove("resources"))? })
            }
        };
        if !o.is_empty() {
            return refuse();
        }
        Ok(b)
    }
}
