//! C32: the destination of every writer and the source of every reader fails at every point.
use super::assembly::{as_idl, as_json, Scratch};
use super::fam::{op3, smap, strs};
use crate::kit::gen::*;
use crate::kit::order::with_seed;
use crate::kit::run::{guard, Ctx};
use crate::kit::spec::*;
use crate::kit::sys::{with_plan, Plan};
use atelier_core::io::debug::DebugWriter;
use atelier_core::io::lines::LineOrientedWriter;
use atelier_core::io::*;
use atelier_core::model::{Model, NamespaceID};
use atelier_describe::document::writer::DocumentationWriter;
use atelier_describe::graphml::writer::GraphMLWriter;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_json::{JsonReader, JsonWriter};
use atelier_rdf::writer::RdfWriter;
use atelier_smithy::{SmithyReader, SmithyWriter};
use std::io::{Error, ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// nothing more is taken or given after so many bytes
    Full(usize, Kind),
    /// the call with this number fails, the others do not
    Once(usize, Kind),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Other,
    Pipe,
    Zero,
    Data,
}
const KINDS: [Kind; 4] = [Kind::Other, Kind::Pipe, Kind::Zero, Kind::Data];
fn error(k: Kind) -> std::io::Result<usize> {
    match k {
        Kind::Other => Err(Error::from_raw_os_error(5)),
        Kind::Pipe => Err(Error::new(ErrorKind::BrokenPipe, "gone")),
        Kind::Data => Err(Error::new(ErrorKind::UnexpectedEof, "short")),
        Kind::Zero => Ok(0),
    }
}
struct Io<'a> {
    fault: Fault,
    /// at most so many bytes at a time
    chunk: usize,
    /// every call is interrupted once
    intr: bool,
    was: bool,
    hit: bool,
    calls: usize,
    /// written, or still to be read
    taken: Vec<u8>,
    left: &'a [u8],
}
impl<'a> Io<'a> {
    fn new(fault: Fault, chunk: usize, intr: bool, left: &'a [u8]) -> Io<'a> {
        Io { fault, chunk, intr, was: false, hit: false, calls: 0, taken: vec![], left }
    }
    /// How many bytes the call may transfer.
    fn turn(&mut self, n: usize, done: usize) -> std::io::Result<usize> {
        if self.intr {
            self.was = !self.was;
            if self.was {
                return Err(Error::from(ErrorKind::Interrupted));
            }
        }
        self.calls += 1;
        let mut n = n.min(self.chunk);
        match self.fault {
            Fault::None => {}
            Fault::Full(k, e) => {
                if done >= k {
                    self.hit = true;
                    return error(e);
                }
                n = n.min(k - done);
            }
            Fault::Once(k, e) => {
                if self.calls == k + 1 {
                    self.hit = true;
                    return error(e);
                }
            }
        }
        Ok(n)
    }
}
impl Write for Io<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.turn(b.len(), self.taken.len())?;
        self.taken.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self.fault {
            Fault::Full(k, _) if self.taken.len() >= k => Err(Error::from_raw_os_error(5)),
            _ => Ok(()),
        }
    }
}
struct Source<'a>(Io<'a>, usize);
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.0.turn(b.len(), self.1)?.min(self.0.left.len());
        b[..n].copy_from_slice(&self.0.left[..n]);
        self.0.left = &self.0.left[n..];
        self.1 += n;
        Ok(n)
    }
}

const FORMATS: [&str; 9] = ["json", "pretty json", "smithy", "lines", "graphml", "uml", "documentation", "rdf", "debug"];

/// Calls `$f` with a writer of the format.
macro_rules! with_writer {
    ($format:expr, $w:ident => $e:expr) => {
        match $format {
            "json" => { let mut $w = JsonWriter::new(false); $e }
            "pretty json" => { let mut $w = JsonWriter::new(true); $e }
            "smithy" => { let mut $w = SmithyWriter::new(NamespaceID::new_unchecked("a")); $e }
            "lines" => { let mut $w = LineOrientedWriter::default(); $e }
            "graphml" => { let mut $w = GraphMLWriter::default(); $e }
            "uml" => { let mut $w = PlantUmlWriter::new(true); $e }
            "documentation" => { let mut $w = DocumentationWriter::default(); $e }
            "rdf" => { let mut $w = RdfWriter::default(); $e }
            _ => { let mut $w = DebugWriter::default(); $e }
        }
    };
}

/// Blank nodes are named from a counter of the process, which also decides the order of the
/// statements about them: two such documents are not compared as text.
fn varies(format: &str, full: &[u8]) -> bool {
    format == "rdf" && full.windows(2).any(|w| w == b"_:")
}
/// Is what was taken a beginning of the document?
fn begins(format: &str, full: &[u8], got: &[u8]) -> Result<(), String> {
    if varies(format, full) || full.starts_with(got) {
        return Ok(());
    }
    Err(format!("what was taken is not a beginning of the document: {:?}", String::from_utf8_lossy(got)))
}

type Ran = (Result<(), String>, Vec<u8>, Io<'static>);
fn written(format: &'static str, sp: &Spec, fault: Fault, chunk: usize, intr: bool) -> Result<Ran, String> {
    with_seed(7, move || {
        let m = sp.build();
        guard(|| {
            let mut io = Io::new(fault, chunk, intr, &[]);
            let r = with_writer!(format, w => w.write(&mut io, &m)).map_err(|e| e.to_string());
            let got = std::mem::take(&mut io.taken);
            (r, got, io)
        })
    })
}

fn subjects(thorough: bool) -> Vec<(&'static str, Spec)> {
    let mut v = vec![("nothing", Spec::default())];
    let mut sp = Spec::default().with("a#S", Body::Structure(st(&[mem("m", "a#S"), mem("n", "smithy.api#String")])));
    sp.metadata.insert("k".into(), V::Arr(vec![V::Int(1), s("é\u{1F600}\n")]));
    sp.shapes.get_mut("a#S").unwrap().traits = traits(&[("smithy.api#documentation", Some(s("two\nlines"))), ("a#tr", Some(obj(&[("x", V::None), ("y", V::Float(F(1.5)))])))]);
    v.push(("structure", sp));
    let mut sp = Spec::default();
    for (i, b) in super::fam::plain_bodies().iter().enumerate() {
        if thorough || !matches!(b, Body::Simple(k) if k != "string" && k != "long") {
            sp = sp.with(&format!("{}#K{i}", ["a", "b.c"][i % 2]), b.clone());
        }
    }
    v.push(("all kinds", sp));
    // every slot of every kind filled, with traits on all of them
    let mut sp = Spec::default().with("a#T", Body::Simple("string".into()));
    let ops = || strs(&["a#Op", "b#Op2"]);
    let (m, n) = (mem("m", "a#T"), mem("n", "b#U"));
    for (i, b) in [
        Body::Simple("blob".into()),
        Body::List(mem("member", "a#T")),
        Body::Set(mem("member", "b#U")),
        Body::Map(mem("key", "a#T"), mem("value", "b#U")),
        Body::Structure(st(&[m.clone(), n.clone()])),
        Body::Union(st(&[m, n])),
        Body::Service(Svc { version: "1".into(), operations: ops(), resources: ops(), renames: smap(&[("b#U", "V"), ("b#W", "X")]) }),
        op3(Some("a#T"), Some("b#U"), &["a#E", "b#F"]),
        Body::Resource(Res { identifiers: smap(&[("i", "a#T"), ("j", "b#U")]), life: [Some("a#Op".into()), Some("a#Op".into()), Some("b#Op2".into()), Some("a#Op".into()), Some("a#Op".into()), Some("b#Op2".into())], operations: ops(), collection_operations: ops(), resources: ops() }),
        Body::Unresolved,
    ]
    .iter()
    .enumerate()
    {
        let mut shape = super::merging::decorate(b, "b#tr", Some(s("1")));
        shape.traits.insert("smithy.api#documentation".into(), Some(s("words")));
        shape.traits.insert("smithy.api#deprecated".into(), None);
        sp.shapes.insert(format!("a#K{i}"), shape);
    }
    v.push(("every slot", sp));
    if thorough {
        v.push(("kitchen sink", super::iofam::kitchen()));
    }
    v
}

pub fn run(c: &mut Ctx) {
    c.level = "fault_enumeration";
    c.per_case = 1;
    c.rule = "nine writers on models of all kinds: the destination takes k bytes and then fails or takes nothing, for every k, or fails at one call, for every call, in four ways, with whole and with split writes: an error is reported and what was taken is a beginning of the document; split and interrupted writes give the whole document. Two readers: the source fails at every byte and every call in three ways: an error; split and interrupted reads give the model. The same around the powers of two up to 65536 for documents longer than the usual buffers, with characters of several bytes. The same for files, failing every system call with each of several codes; non-trivial = a fault is injected".into();
    writers(c);
    readers(c);
    files(c);
    large(c);
}

/// Documents longer than the buffers between a writer or reader and the system, with faults and
/// splits around the ends of such buffers, inside characters too.
fn large(c: &mut Ctx) {
    let text = |n: usize, off: usize| format!("{}{}", "x".repeat(off), "é€\u{1F600}z".repeat(n));
    let mut subjects = vec![];
    for off in 0..4 {
        let mut sp = Spec::default().with("a#S", Body::Structure(st(&[mem("m", "a#S")])));
        sp.metadata.insert("k".into(), V::Arr(vec![s(&text(7000, off)), s("end")]));
        sp.shapes.get_mut("a#S").unwrap().traits = traits(&[("smithy.api#documentation", Some(s(&text(900, off))))]);
        subjects.push((format!("long texts {off}"), sp));
    }
    let mut sp = Spec::default();
    for i in 0..400 {
        sp = sp.with(&format!("a#Shape{i}"), Body::Structure(st(&[mem("member", &format!("a#Shape{}", i / 2)), mem("other", "smithy.api#String")])));
    }
    subjects.push(("many shapes".to_string(), sp));
    let ends = |len: usize| -> Vec<usize> {
        let mut v: Vec<usize> = [512usize, 1024, 4096, 8192, 16384, 32768, 65536].iter().flat_map(|b| (1..=3).map(move |i| b * i)).flat_map(|b| [b - 1, b, b + 1]).chain([0, 1, len / 2, len.saturating_sub(8193), len.saturating_sub(8192), len.saturating_sub(2), len - 1]).filter(|k| *k < len).collect();
        v.sort_unstable();
        v.dedup();
        v
    };
    for (name, sp) in &subjects {
        for f in FORMATS {
            let Ok((Ok(()), full, Io { calls, .. })) = written(f, sp, Fault::None, usize::MAX, false) else {
                c.fail(&format!("{f} of {name}"), "not written to a sound destination".into());
                continue;
            };
            let same = |got: &[u8]| if varies(f, &full) { got.len() >= full.len() / 2 } else { got == full };
            for chunk in [7usize, 1000, 4095, 4096, 8191, 8192, 8193] {
                for intr in [false, true] {
                    c.case(&format!("{f} of {name}, {chunk} bytes at a time, interrupted: {intr}"), true, || {
                        let (r, got, _) = written(f, sp, Fault::None, chunk, intr)?;
                        r.map_err(|e| format!("reports {e}"))?;
                        if !same(&got) {
                            return Err("another document".into());
                        }
                        Ok(())
                    });
                }
            }
            let mut fails = |fault: Fault, chunk: usize| {
                c.case_o(&format!("{f} of {name}, {fault:?}, {chunk} at a time"), true, || {
                    let (r, got, io) = written(f, sp, fault, chunk, false)?;
                    if !io.hit {
                        return if varies(f, &full) { Ok("not reached") } else { Err("the fault is not reached".into()) };
                    }
                    if r.is_ok() {
                        return Err("writing reports success".into());
                    }
                    begins(f, &full, &got).map_err(|e| e[..80.min(e.len())].to_string())?;
                    Ok("error reported")
                });
            };
            for k in ends(full.len()) {
                fails(Fault::Full(k, Kind::Other), usize::MAX);
                fails(Fault::Full(k, Kind::Zero), 4096);
            }
            for k in [0, 1, 2, calls / 3, calls / 2, calls.saturating_sub(3), calls.saturating_sub(2), calls - 1] {
                if k < calls {
                    fails(Fault::Once(k, Kind::Other), usize::MAX);
                }
            }
        }
        let mut own = sp.clone();
        own.shapes.retain(|k, s| k.starts_with("a#") && s.body != Body::Unresolved);
        for (format, text) in [("json", as_json(sp)), ("smithy", as_idl(&own, "a"))] {
            let text = text.into_bytes();
            let read = |fault: Fault, chunk: usize, intr: bool| -> Result<Result<Spec, String>, String> {
                let mut src = Source(Io::new(fault, chunk, intr, &text), 0);
                let r: Result<Model, _> = guard(|| if format == "json" { JsonReader::default().read(&mut src) } else { SmithyReader::default().read(&mut src) })?;
                Ok(r.map_err(|e| e.to_string()).map(|m| Spec::observe(&m)))
            };
            for chunk in [1usize, 2, 3, 7, 31, 32, 33, 63, 64, 65, 1000, 4095, 4096, 8191, 8192, 8193, usize::MAX] {
                for intr in [false, true] {
                    c.case(&format!("reading {format} of {name}, {chunk} at a time, interrupted: {intr}"), true, || {
                        let got = read(Fault::None, chunk, intr)?.map_err(|e| format!("reports {}", e.chars().take(80).collect::<String>()))?;
                        if got != if format == "json" { sp.clone() } else { own.clone() } {
                            return Err("another model".into());
                        }
                        Ok(())
                    });
                }
            }
            for k in ends(text.len()) {
                for chunk in [4096, usize::MAX] {
                    c.case_o(&format!("reading {format} of {name}, an error after {k} bytes, {chunk} at a time"), true, || match read(Fault::Full(k, Kind::Other), chunk, false)? {
                        Ok(_) => Err("reading reports success".into()),
                        Err(_) => Ok("error reported"),
                    });
                }
            }
        }
    }
}

fn writers(c: &mut Ctx) {
    for (name, sp) in &subjects(c.thorough) {
        let thin = *name == "every slot" && !c.thorough;
        for f in FORMATS {
            let Ok((Ok(()), full, Io { calls, .. })) = written(f, sp, Fault::None, usize::MAX, false) else {
                c.fail(&format!("{f} of {name}"), "not written to a sound destination".into());
                continue;
            };
            let same = |got: &[u8]| if varies(f, &full) { got.len() >= full.len() / 2 && !got.ends_with(b"xx") } else { got == full };
            for chunk in [1usize, 2, 3, 5, 16] {
                for intr in [false, true] {
                    c.case(&format!("{f} of {name}, {chunk} bytes at a time, interrupted: {intr}"), true, || {
                        let (r, got, _) = written(f, sp, Fault::None, chunk, intr)?;
                        r.map_err(|e| format!("reports {e}"))?;
                        if !same(&got) {
                            return Err("another document".into());
                        }
                        Ok(())
                    });
                }
            }
            c.case(&format!("{f} of {name}, interrupted"), true, || {
                let (r, got, _) = written(f, sp, Fault::None, usize::MAX, true)?;
                r.map_err(|e| format!("reports {e}"))?;
                if !same(&got) {
                    return Err("another document".into());
                }
                Ok(())
            });
            let mut fails = |fault: Fault, chunk: usize| {
                c.case_o(&format!("{f} of {name}, {fault:?}, {chunk} at a time"), true, || {
                    let (r, got, io) = written(f, sp, fault, chunk, false)?;
                    if !io.hit {
                        return if varies(f, &full) { Ok("not reached") } else { Err("the fault is not reached".into()) };
                    }
                    if r.is_ok() {
                        return Err("writing reports success".into());
                    }
                    begins(f, &full, &got)?;
                    Ok("error reported")
                });
            };
            for k in (0..full.len()).step_by(if thin { 5 } else { 1 }) {
                for e in [Kind::Other, Kind::Pipe, Kind::Zero] {
                    if e != Kind::Other && k % 7 != 0 && full.len() > 2000 {
                        continue;
                    }
                    fails(Fault::Full(k, e), usize::MAX);
                }
                if k % 3 == 0 {
                    fails(Fault::Full(k, Kind::Other), 2);
                }
            }
            for n in 0..calls {
                for e in [Kind::Other, Kind::Pipe, Kind::Zero] {
                    if thin && e != Kind::Other {
                        continue;
                    }
                    fails(Fault::Once(n, e), usize::MAX);
                }
            }
        }
    }
}

fn readers(c: &mut Ctx) {
    for (name, sp) in &subjects(c.thorough) {
        let mut own = sp.clone();
        own.shapes.retain(|k, s| k.starts_with("a#") && s.body != Body::Unresolved);
        for (format, text) in [("json", as_json(sp)), ("smithy", as_idl(&own, "a"))] {
            let text = text.into_bytes();
            let read = |fault: Fault, chunk: usize, intr: bool| -> Result<(Result<Spec, String>, usize), String> {
                let mut src = Source(Io::new(fault, chunk, intr, &text), 0);
                let r: Result<Model, _> = guard(|| if format == "json" { JsonReader::default().read(&mut src) } else { SmithyReader::default().read(&mut src) })?;
                Ok((r.map_err(|e| e.to_string()).map(|m| Spec::observe(&m)), src.0.calls))
            };
            let first = match read(Fault::None, usize::MAX, false) {
                Ok((Ok(s), _)) => s,
                e => {
                    c.fail(&format!("{format} of {name}"), format!("not read from a sound source: {e:?}"));
                    continue;
                }
            };
            for chunk in (1..=17).chain([64, usize::MAX]) {
                for intr in [false, true] {
                    c.case(&format!("reading {format} of {name}, {chunk} at a time, interrupted: {intr}"), true, || {
                        let (r, _) = read(Fault::None, chunk, intr)?;
                        let got = r.map_err(|e| format!("reports {e}"))?;
                        diff(&first, &got)
                    });
                }
            }
            for chunk in [1usize, 4, usize::MAX] {
                if chunk != usize::MAX && *name == "every slot" && !c.thorough {
                    continue;
                }
                for k in 0..=text.len() {
                    for e in KINDS {
                        if e == Kind::Zero {
                            continue; // the end of the text: other properties
                        }
                        c.case_o(&format!("reading {format} of {name}, {e:?} after {k} bytes, {chunk} at a time"), true, || match read(Fault::Full(k, e), chunk, false)?.0 {
                            Ok(_) => Err("reading reports success".into()),
                            Err(_) => Ok("error reported"),
                        });
                    }
                }
                let (_, calls) = read(Fault::None, chunk, false).unwrap();
                for k in 0..calls {
                    for e in [Kind::Other, Kind::Pipe, Kind::Data] {
                        c.case_o(&format!("reading {format} of {name}, {e:?} at call {k}, {chunk} at a time"), true, || match read(Fault::Once(k, e), chunk, false)?.0 {
                            Ok(_) => Err("reading reports success".into()),
                            Err(_) => Ok("error reported"),
                        });
                    }
                }
            }
        }
    }
}

fn files(c: &mut Ctx) {
    let d = Scratch::new("faults");
    d.dir("sub");
    for (name, sp) in &subjects(c.thorough) {
        // reading
        let mut own = sp.clone();
        own.shapes.retain(|k, s| k.starts_with("a#") && s.body != Body::Unresolved);
        for (format, text) in [("json", as_json(sp)), ("smithy", as_idl(&own, "a"))] {
            let file = format!("in.{format}");
            d.put(&file, text.as_bytes());
            let path = d.0.join(&file);
            let read = |p: Plan| -> Result<(Result<Spec, String>, Vec<&'static str>), String> {
                let (r, log) = with_plan(p, || {
                    guard(|| {
                        if format == "json" {
                            read_model_from_file(&mut JsonReader::default(), path.clone())
                        } else {
                            read_model_from_file(&mut SmithyReader::default(), path.clone())
                        }
                    })
                });
                Ok((r?.map_err(|e| e.to_string()).map(|m| Spec::observe(&m)), log))
            };
            let (first, log) = match read(Plan::default()) {
                Ok((Ok(s), l)) => (s, l),
                e => {
                    c.fail(&format!("file {format} of {name}"), format!("not read: {e:?}"));
                    continue;
                }
            };
            for short in [None, Some(1), Some(3), Some(10)] {
                for eintr in [false, true] {
                    c.case(&format!("file {format} of {name}, reads of {short:?}, interrupted: {eintr}"), true, || {
                        let got = read(Plan { short, eintr, ..Default::default() })?.0.map_err(|e| format!("reports {e}"))?;
                        diff(&first, &got)
                    });
                }
            }
            for n in 0..log.len().min(40) as u64 {
                for errno in [5, 13, 2, 11, 21, 24] {
                    for short in [None, Some(7)] {
                        c.case_o(&format!("file {format} of {name}, call {n} fails with {errno}, reads of {short:?}"), true, || match read(Plan { fail: Some((n, errno)), short, ..Default::default() })?.0 {
                            Ok(_) => Err("reading reports success".into()),
                            Err(_) => Ok("error reported"),
                        });
                    }
                }
            }
            c.case_o(&format!("file {format} of {name} through a string"), true, || {
                let m = if format == "json" { read_model_from_string(&mut JsonReader::default(), &text) } else { read_model_from_string(&mut SmithyReader::default(), &text) };
                diff(&first, &Spec::observe(&m.map_err(|e| e.to_string())?)).map(|_| "ok")
            });
        }
        for missing in ["none.json", "none/x.json", "", "sub"] {
            c.case_o(&format!("file {missing:?} of {name}"), true, || {
                let p = if missing.is_empty() { d.0.clone() } else { d.0.join(missing) };
                match read_model_from_file(&mut JsonReader::default(), p.clone()) {
                    Ok(_) => return Err("reading reports success".into()),
                    Err(_) => {}
                }
                if missing != "none.json" && write_model_to_file(&mut JsonWriter::new(false), &sp.build(), p).is_ok() {
                    return Err("writing reports success".into());
                }
                Ok("error reported")
            });
        }
        // writing
        for f in FORMATS {
            let path = d.0.join("out");
            let write = |p: Plan, old: Option<&[u8]>| -> Result<(Result<(), String>, Option<Vec<u8>>, Vec<&'static str>), String> {
                let _ = std::fs::remove_file(&path);
                if let Some(o) = old {
                    std::fs::write(&path, o).unwrap();
                }
                with_seed(7, || {
                    let m = sp.build();
                    let (r, log) = with_plan(p, || guard(|| with_writer!(f, w => write_model_to_file(&mut w, &m, path.clone()))));
                    Ok((r?.map_err(|e| e.to_string()), std::fs::read(&path).ok(), log))
                })
            };
            let Ok((Ok(()), full, _)) = written(f, sp, Fault::None, usize::MAX, false) else { continue };
            let same = |got: &[u8]| if varies(f, &full) { got.len() >= full.len() / 2 && !got.ends_with(b"xx") } else { got == full };
            let whole = |r: (Result<(), String>, Option<Vec<u8>>, Vec<&'static str>)| {
                r.0.map_err(|e| format!("reports {e}"))?;
                match r.1 {
                    Some(g) if same(&g) => Ok(()),
                    g => Err(format!("the file has {:?}", g.map(|g| String::from_utf8_lossy(&g).to_string()))),
                }
            };
            let long = vec![b'x'; full.len() + 100];
            for (what, old) in [("no", None), ("an empty", Some(&b""[..])), ("a short", Some(b"old")), ("a longer", Some(&long))] {
                for short in [None, Some(1), Some(5)] {
                    for eintr in [false, true] {
                        c.case(&format!("{f} of {name} over {what} file, writes of {short:?}, interrupted: {eintr}"), true, || whole(write(Plan { short, eintr, ..Default::default() }, old)?));
                    }
                }
            }
            c.case(&format!("{f} of {name} to a string"), true, || {
                let s = with_seed(7, || {
                    let m = sp.build();
                    guard(|| with_writer!(f, w => write_model_to_string(&mut w, &m)))
                })?
                .map_err(|e| e.to_string())?;
                if !same(s.as_bytes()) {
                    return Err("another document".into());
                }
                Ok(())
            });
            let Ok((_, _, log)) = write(Plan::default(), None) else { continue };
            for n in 0..log.len() as u64 {
                for errno in [28, 5, 13] {
                    for sticky in [false, true] {
                        if (errno != 28 || sticky) && n > 30 && n % if *name == "every slot" { 97 } else { 5 } != 0 && !c.thorough {
                            continue;
                        }
                        c.case_o(&format!("{f} of {name}, call {n} of {} fails with {errno}, and so on: {sticky}", log.len()), true, || {
                            let (r, got, calls) = write(Plan { fail: Some((n, errno)), sticky, ..Default::default() }, None)?;
                            if r.is_ok() && calls.len() as u64 <= n && varies(f, &full) {
                                return Ok("not reached");
                            }
                            if r.is_ok() {
                                return Err("writing reports success".into());
                            }
                            begins(f, &full, &got.unwrap_or_default())?;
                            Ok("error reported")
                        });
                    }
                }
            }
        }
    }
}
