//! C33: the command line tool, run as a process.
use super::assembly::{as_idl, as_json, merge, Scratch};
use super::describe::{uml_expected, uml_facts};
use super::iofam::norm;
use super::merging::sort_arrays;
use crate::kit::gen::*;
use crate::kit::run::Ctx;
use crate::kit::spec::*;
use atelier_core::action::lint::{NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Action, ActionIssue, Linter, Validator};
use atelier_assembler::{FileTypeRegistry, ModelAssembler};
use atelier_core::io::{read_model_from_string, ModelWriter};
use atelier_core::model::Model;
use atelier_describe::document::writer::describe_model;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_json::{JsonReader, JsonWriter};
use atelier_smithy::{SmithyReader, SmithyWriter};
use somedoc::write::{write_document_to_string, OutputFormat};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::fs::File;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::str::FromStr;

/// How the tool ended.
struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
fn tool() -> PathBuf {
    let mut p = std::env::current_exe().unwrap();
    p.set_file_name("cargo-atelier");
    p
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Stdout {
    Pipe,
    Full,
}
fn run_tool(dir: &Path, args: &[String], env: &[(&str, String)], to: Stdout) -> Result<Ran, String> {
    let mut c = Command::new(tool());
    c.current_dir(dir).args(args).env_clear().envs(env.iter().map(|(k, v)| (k, v))).stdin(Stdio::null());
    if to == Stdout::Full {
        c.stdout(File::options().write(true).open("/dev/full").map_err(|e| format!("harness: {e}"))?);
    }
    let o = c.output().map_err(|e| format!("harness: {e}"))?;
    Ok(Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into() })
}

// ------------------------------------------------------------------------------------- the models

fn one() -> Spec {
    let mut m = mem("m", "smithy.api#String");
    m.traits = traits(&[("smithy.api#documentation", Some(s("text of m")))]);
    let mut sp = Spec::default()
        .with("a#Thing", Body::Structure(st(&[m, mem("n", "a#Things")])))
        .with("a#Things", Body::List(Mem { name: "member".into(), target: "a#Thing".into(), traits: traits(&[]) }))
        .with("a#Svc", Body::Service(Svc { version: "1".into(), operations: ["a#Op".to_string()].into(), ..Default::default() }))
        .with("a#Op", Body::Operation(Op { input: Some("a#Thing".into()), ..Default::default() }));
    sp.metadata.insert("k".into(), V::Arr(vec![V::Int(1)]));
    sp.shapes.get_mut("a#Svc").unwrap().traits = traits(&[("smithy.api#documentation", Some(s("a service")))]);
    sp
}
fn two() -> Spec {
    let mut sp = Spec::default().with("a#More", Body::Union(st(&[mem("x", "a#Thing"), mem("y", "smithy.api#Integer")])));
    sp.metadata.insert("k".into(), V::Arr(vec![V::Int(2)]));
    sp.metadata.insert("l".into(), s("\u{e9}"));
    sp
}
fn other() -> Spec {
    Spec::default().with("b.c#Other", Body::Structure(st(&[mem("m", "b.c#Str")]))).with("b.c#Str", Body::Simple("string".into()))
}
fn clash() -> Spec {
    Spec::default().with("a#Thing", Body::Simple("string".into()))
}
/// Something for every linter and validator.
fn poor() -> Spec {
    let mut sp = Spec::default()
        .with("a#bad_name", Body::Structure(st(&[mem("BadMember", "a#Nowhere"), mem("blacklist", "a#op"), mem("fine", "smithy.api#String")])))
        .with("a#op", Body::Operation(Op { input: Some("a#text".into()), ..Default::default() }))
        .with("a#text", Body::Simple("string".into()))
        .with("a#WhiteList", Body::Simple("integer".into()));
    sp.shapes.get_mut("a#text").unwrap().traits = traits(&[("a#missing", None)]);
    sp
}

struct Input {
    name: &'static str,
    args: Vec<&'static str>,
    env: Vec<(&'static str, &'static str)>,
    /// None: the command fails
    model: Option<Spec>,
}
fn inputs() -> Vec<Input> {
    let all = |v: &[Spec]| Some(norm(&v.iter().fold(Spec::default(), |a, b| merge(&a, b).unwrap())));
    let i = |name, args: &[&'static str], model: Option<Spec>| Input { name, args: args.to_vec(), env: vec![], model };
    let e = |name, args: &[&'static str], env: &[(&'static str, &'static str)], model: Option<Spec>| Input { name, args: args.to_vec(), env: env.to_vec(), model };
    let good = all(&[one(), two()]);
    vec![
        i("nothing", &[], all(&[])),
        i("json", &["-i", "one.json"], all(&[one()])),
        i("smithy", &["-i", "one.smithy"], all(&[one()])),
        i("upper case extension", &["--in-file", "ONE.JSON"], all(&[one()])),
        i("both formats", &["-i", "one.json", "-i", "two.smithy"], good.clone()),
        i("both in one option", &["-i", "two.json", "one.smithy"], good.clone()),
        i("the same model in both formats", &["--in-file=one.smithy", "--in-file=./one.json"], all(&[one(), one()])),
        i("one file twice", &["-i", "one.json", "-i", "./one.json", "--in-file=good/../one.json"], all(&[one()])),
        i("directory", &["-i", "good"], good.clone()),
        i("directory and file", &["-i", "good", "other.json"], all(&[one(), two(), other()])),
        i("two namespaces", &["-i", "one.json", "other.smithy"], all(&[one(), other()])),
        i("issues", &["-i", "poor.json"], all(&[poor()])),
        i("issues in smithy", &["-i", "poor.smithy"], all(&[poor()])),
        i("link", &["-i", "link.json"], all(&[two()])),
        i("unknown extension", &["-i", "notes.txt"], all(&[])),
        i("empty directory", &["-i", "empty"], all(&[])),
        e("default search path", &["-d"], &[("SMITHY_PATH", "good:absent")], good.clone()),
        e("default search path, long", &["--default-search-env"], &[("SMITHY_PATH", "one.json"), ("OTHER", "other.json")], all(&[one()])),
        e("search path not asked for", &["-i", "other.json"], &[("SMITHY_PATH", "good")], all(&[other()])),
        e("named search path", &["-s", "OTHER"], &[("SMITHY_PATH", "good"), ("OTHER", "other.json:two.json")], all(&[other(), two()])),
        e("named search path and file", &["-s", "OTHER", "-i", "one.json"], &[("OTHER", "two.json")], good.clone()),
        e("named search path in mixed case", &["-s", "My_Path1"], &[("MY_PATH1", "one.json"), ("My_Path1", "two.json"), ("my_path1", "good"), ("SMITHY_PATH", "good")], all(&[two()])),
        e("named search path, long", &["--search-env", "smithy_path"], &[("SMITHY_PATH", "good"), ("smithy_path", "other.json")], all(&[other()])),
        e("named search path not set", &["-s", "OTHER"], &[("SMITHY_PATH", "good"), ("other", "good"), ("OTHERS", "good")], all(&[])),
        e("search path not set", &["-d"], &[], all(&[])),
        e("broken search path", &["-d"], &[("SMITHY_PATH", "bad")], None),
        e("both search paths", &["-d", "-s", "OTHER"], &[("SMITHY_PATH", "good"), ("OTHER", "good")], None),
        i("conflict", &["-i", "one.json", "clash.json"], None),
        i("conflict of formats", &["-i", "clash.json", "-i", "one.smithy"], None),
        i("absent", &["-i", "absent.json"], None),
        i("absent second", &["-i", "one.json", "absent.json"], None),
        i("broken json", &["-i", "bad/broken.json"], None),
        i("broken smithy", &["-i", "broken.smithy"], None),
        i("broken below", &["-i", "bad"], None),
        i("cut json", &["-i", "cut.json"], None),
        i("cut smithy", &["-i", "cut.smithy"], None),
        i("empty json", &["-i", "zero.json"], None),
        i("not UTF-8 json", &["-i", "latin.json"], None),
        i("not UTF-8 smithy", &["-i", "latin.smithy"], None),
        i("wrong format", &["-i", "wrong.smithy"], None),
        i("dangling link", &["-i", "dangling.json"], None),
        i("no value", &["-i"], None),
        i("unknown option", &["--frobnicate"], None),
        i("stray argument", &["one.json"], None),
        i("empty path", &["-i", ""], None),
    ]
}
fn lay_out(d: &Scratch) {
    for (n, sp) in [("one", one()), ("two", two()), ("other", other()), ("clash", clash()), ("poor", poor())] {
        d.put(&format!("{n}.json"), as_json(&sp).as_bytes());
        d.put(&format!("{n}.smithy"), as_idl(&sp, if n == "other" { "b.c" } else { "a" }).as_bytes());
    }
    let j = as_json(&one());
    let t = as_idl(&one(), "a");
    d.put("ONE.JSON", j.as_bytes());
    d.put("good/one.json", j.as_bytes());
    d.put("good/sub/two.SMITHY", as_idl(&two(), "a").as_bytes());
    d.put("good/sub/notes.txt", b"notes");
    d.put("notes.txt", b"notes");
    d.dir("empty");
    d.put("bad/one.json", j.as_bytes());
    d.put("bad/broken.json", b"{\"smithy\": \"1.0\", ");
    d.put("broken.smithy", b"namespace a\n\nstructure {}\n");
    d.put("cut.json", &j.as_bytes()[..j.len() - 1]);
    d.put("cut.smithy", &t.trim_end().as_bytes()[..t.trim_end().len() - 1]);
    d.put("zero.json", b"");
    d.put("latin.json", b"{\"smithy\":\"1.0\",\"metadata\":{\"k\":\"\xe9\"}}");
    d.put("latin.smithy", b"$version: \"1.0\"\nmetadata k = \"\xe9\"\n");
    d.put("wrong.smithy", j.as_bytes());
    d.link("two.json", "link.json");
    d.link("absent", "dangling.json");
    d.dir("out");
}

// ------------------------------------------------------------------------------------ the commands

#[derive(Clone, PartialEq, Debug)]
enum What {
    Lint,
    Validate,
    Json,
    Smithy(Option<&'static str>),
    Uml,
    Doc(&'static str),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Stdout,
    Full,
    New,
    Over(&'static str),
    Input,
    NoDir,
    Dir,
    FullFile,
}

fn strip(t: &str) -> String {
    let mut o = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn issues(m: &Model, lint: bool) -> Result<Vec<ActionIssue>, String> {
    let mut v = vec![];
    if lint {
        let (mut a, mut b) = (NamingConventions::default(), UnwelcomeTerms::default());
        a.check(m).map_err(|e| e.to_string())?;
        b.check(m).map_err(|e| e.to_string())?;
        for l in [&mut a as &mut dyn Linter, &mut b as &mut dyn Linter] {
            v.extend(l.issues_mut().drain(..));
        }
    } else {
        let (mut a, mut b) = (NoUnresolvedReferences::default(), CorrectTypeReferences::default());
        for l in [&mut a as &mut dyn Validator, &mut b as &mut dyn Validator] {
            l.validate(m).map_err(|e| e.to_string())?;
            v.extend(l.issues_mut().drain(..));
        }
    }
    Ok(v)
}
/// One paragraph per issue, naming its level, message, reporter and element.
fn reported(text: &str, want: Vec<ActionIssue>) -> Result<&'static str, String> {
    let t = strip(text);
    let mut paras: Vec<&str> = t.split("\n\n").map(|p| p.trim()).filter(|p| !p.is_empty()).collect();
    if want.is_empty() {
        return if paras.len() == 1 && paras[0].to_lowercase().contains("no issues") { Ok("no issues") } else { Err(format!("reports {t:?} of no issues")) };
    }
    // each paragraph is the report of one issue: a perfect matching
    paras.sort();
    let can: Vec<Vec<usize>> = want
        .iter()
        .map(|i| {
            let parts = [format!("[{}]", i.level()), i.message().clone(), i.reporter().clone(), i.locus().as_ref().map(|l| l.to_string()).unwrap_or_default()];
            let len: usize = parts.iter().map(|p| p.len()).sum();
            (0..paras.len()).filter(|k| paras[*k].len() <= len + 60 && parts.iter().all(|x| paras[*k].contains(x.as_str()))).collect()
        })
        .collect();
    fn place(i: usize, can: &[Vec<usize>], seen: &mut Vec<bool>, at: &mut Vec<Option<usize>>) -> bool {
        for k in &can[i] {
            if !seen[*k] {
                seen[*k] = true;
                if at[*k].is_none() || place(at[*k].unwrap(), can, seen, at) {
                    at[*k] = Some(i);
                    return true;
                }
            }
        }
        false
    }
    let mut at = vec![None; paras.len()];
    for (i, issue) in want.iter().enumerate() {
        if !place(i, &can, &mut vec![false; paras.len()], &mut at) {
            return Err(format!("does not report {issue:?}: {t:?}"));
        }
    }
    if let Some(k) = at.iter().position(|x| x.is_none()) {
        return Err(format!("reports besides {:?}", paras[k]));
    }
    Ok("issues")
}
fn words(t: &str) -> Vec<String> {
    let mut v: Vec<String> = t.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
    v.sort();
    v
}
fn is_document(what: &What, sp: &Spec, got: &[u8]) -> Result<&'static str, String> {
    let t = std::str::from_utf8(got).map_err(|_| "not UTF-8".to_string())?;
    let bad = |e: String| format!("{e}; the output is {t:?}");
    match what {
        What::Json => {
            let m = read_model_from_string(&mut JsonReader::default(), t).map_err(|e| bad(e.to_string()))?;
            diff(&sort_arrays(sp), &sort_arrays(&norm(&Spec::observe(&m)))).map_err(bad)?;
            Ok("JSON")
        }
        What::Smithy(n) => {
            let m = read_model_from_string(&mut SmithyReader::default(), t).map_err(|e| bad(e.to_string()))?;
            let mut want = sp.clone();
            let ns = n.map(|n| n.to_string()).or_else(|| super::smithy::namespace_of(sp)).ok_or("harness: namespace")?;
            want.shapes.retain(|k, _| k.starts_with(&format!("{ns}#")));
            diff(&sort_arrays(&super::smithy::drop_open(&want)), &sort_arrays(&super::smithy::drop_open(&norm(&Spec::observe(&m))))).map_err(bad)?;
            Ok("Smithy IDL")
        }
        What::Uml => {
            super::describe::compare(&uml_expected(sp, false), &uml_facts(t)?).map_err(bad)?;
            Ok("PlantUML")
        }
        What::Doc(f) => {
            let d = describe_model(&sp.build()).map_err(|e| e.to_string())?;
            let want = write_document_to_string(&d, OutputFormat::from_str(f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            if words(&want) != words(t) || want.len() != t.len() {
                return Err(format!("expected {want:?}, got {t:?}"));
            }
            Ok("documentation")
        }
        What::Lint => reported(t, issues(&sp.build(), true)?),
        What::Validate => reported(t, issues(&sp.build(), false)?),
    }
}

fn commands(c: &Ctx) -> Vec<(&'static str, Vec<&'static str>, What)> {
    let mut v = vec![
        ("lint", vec!["lint"], What::Lint),
        ("validate", vec!["validate"], What::Validate),
        ("convert", vec!["convert"], What::Json),
        ("convert to json", vec!["convert", "-w", "json"], What::Json),
        ("convert to json in a namespace", vec!["convert", "-n", "nope"], What::Json),
        ("convert to smithy", vec!["convert", "-w", "smithy"], What::Smithy(None)),
        ("convert to smithy in a", vec!["convert", "--write-format=smithy", "-n", "a"], What::Smithy(Some("a"))),
        ("convert to smithy in b.c", vec!["convert", "--write-format", "smithy", "--namespace=b.c"], What::Smithy(Some("b.c"))),
        ("convert to smithy in nope", vec!["convert", "-w", "smithy", "-n", "nope"], What::Smithy(Some("nope"))),
        ("convert to uml", vec!["convert", "-w", "uml"], What::Uml),
        ("document", vec!["document"], What::Doc("markdown")),
        ("document as html", vec!["document", "-w", "html"], What::Doc("html")),
    ];
    if c.thorough {
        v.extend([
            ("document as json", vec!["document", "-w", "json"], What::Doc("json")),
            ("document as latex", vec!["document", "--write-format=latex"], What::Doc("latex")),
            ("document as xwiki", vec!["document", "-w", "xwiki"], What::Doc("xwiki")),
            ("document as github markdown", vec!["document", "-w", "md+github"], What::Doc("md+github")),
        ]);
    }
    v
}
/// Commands that always fail.
const WRONG: [&[&str]; 12] = [
    &[],
    &["frobnicate"],
    &["convert", "-w", "xml"],
    &["convert", "-w", ""],
    &["convert", "-w", "smithy", "-n", "not a namespace"],
    &["convert", "-w", "smithy", "-n", ""],
    &["convert", "-w", "smithy", "-n", "a#b"],
    &["document", "-w", "docx"],
    &["document", "-n", "a"],
    &["lint", "-o", "out/x"],
    &["validate", "-w", "json"],
    &["convert", "-w", "json", "-w", "uml"],
];

fn failed(r: &Ran) -> Result<(), String> {
    match r.code {
        Some(0) => return Err("ends with success".into()),
        None => return Err("is killed".into()),
        _ => {}
    }
    if r.err.contains("panicked") {
        return Err(format!("panics: {}", r.err));
    }
    if r.err.trim().is_empty() {
        return Err("ends without a message".into());
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.level = "exploration";
    c.per_case = 1;
    c.rule = "the tool, built from the tree, run as a process: every command with every output format, on every one of 45 inputs (files, directories, links, search paths, bad files, bad options), with every kind of output (standard output, a full device, a new file, an existing shorter, equal or longer file, the input itself, a missing directory, a directory), with and without the cargo prefix and colours; every command on large models and on every (quick: every 23rd) neighbour of rich models, against the library; 2 to 600 input files given in four ways, one of them malformed; 30 odd names for files and directories; a closed pipe; the output must be the document of the model of those inputs and nothing else, or, exactly when it should, the command fails with a message and leaves existing files alone; non-trivial = every case".into();
    let d = Scratch::new("cli");
    lay_out(&d);
    let before = snapshot(&d.0);
    for input in inputs() {
        for (cname, cmd, what) in commands(c) {
            let writes = !matches!(what, What::Lint | What::Validate);
            let outs: &[Out] = if !writes {
                &[Out::Stdout, Out::Full]
            } else if c.thorough || input.model.is_some() {
                &[Out::Stdout, Out::Full, Out::New, Out::Over(""), Out::Over("x"), Out::Over("long"), Out::Input, Out::NoDir, Out::Dir, Out::FullFile]
            } else {
                &[Out::Stdout, Out::New, Out::Over("x"), Out::NoDir]
            };
            for out in outs {
                for style in 0..if c.thorough || !writes { 4 } else { 2 } {
                    let style = if writes && !c.thorough && style == 1 { 3 } else { style };
                    let name = format!("{cname} {}, output to {out:?}, style {style}", input.name);
                    c.case_o(&name, true, || case(&d, &input, &cmd, &what, *out, style, &before));
                }
            }
        }
    }
    every_model(c);
    many_files(c);
    odd_names(c);
    broken_pipe(c);
    for w in WRONG {
        for i in [&["-i", "one.json"][..], &[]] {
            let args: Vec<String> = w.iter().chain(i).map(|x| x.to_string()).collect();
            c.case_o(&format!("wrong command {args:?}"), true, || {
                let r = run_tool(&d.0, &args, &[], Stdout::Pipe)?;
                failed(&r)?;
                if !r.out.is_empty() {
                    return Err(format!("prints {:?}", String::from_utf8_lossy(&r.out)));
                }
                unchanged(&d.0, &before, None)?;
                Ok("fails")
            });
        }
    }
    for at in [&["convert", "-i"][..], &["convert", "-i", "one.json", "-o"], &["convert", "-i", "one.json", "-s"], &["convert", "-i", "one.json", "-w", "smithy", "-n"], &["document", "-w"], &["lint", "-i"], &["validate"], &[]] {
        c.case_o(&format!("an argument that is not UTF-8 after {at:?}"), true, || {
            let mut k = Command::new(tool());
            k.current_dir(&d.0).env_clear().args(at).arg(std::ffi::OsString::from_vec(vec![b'a', 0xff]));
            let o = k.stdin(Stdio::null()).output().map_err(|e| format!("harness: {e}"))?;
            failed(&Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into() })?;
            unchanged(&d.0, &before, None)?;
            Ok("fails")
        });
    }
}

// ------------------------------------------------------- every model, many files, odd names, broken pipes

/// What the library writes of the model it assembles from the same file.
fn library(d: &Path, file: &str, what: &What) -> Result<(Model, Vec<u8>), String> {
    let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
    a.push(&d.join(file));
    let m = Model::try_from(a).map_err(|e| format!("the library refuses it: {e}"))?;
    let mut w = vec![];
    match what {
        What::Json => JsonWriter::new(true).write(&mut w, &m),
        What::Smithy(n) => SmithyWriter::new(n.unwrap_or("a").parse().map_err(|e| format!("harness: {e:?}"))?).write(&mut w, &m),
        What::Uml => PlantUmlWriter::default().write(&mut w, &m),
        What::Doc(f) => {
            let doc = describe_model(&m).map_err(|e| e.to_string())?;
            w = write_document_to_string(&doc, OutputFormat::from_str(f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?.into_bytes();
            Ok(())
        }
        _ => Ok(()),
    }
    .map_err(|e| format!("the library does not write it: {e}"))?;
    Ok((m, w))
}
/// The tool's text against the library's, up to the order of parts.
fn like(what: &What, m: &Model, want: &[u8], got: &[u8]) -> Result<&'static str, String> {
    let (Ok(w), Ok(t)) = (std::str::from_utf8(want), std::str::from_utf8(got)) else { return Err("not UTF-8".into()) };
    let read = |t: &str| match what {
        What::Json => read_model_from_string(&mut JsonReader::default(), t).map(|m| sort_arrays(&norm(&Spec::observe(&m)))).map_err(|e| e.to_string()),
        _ => read_model_from_string(&mut SmithyReader::default(), t).map(|m| sort_arrays(&norm(&Spec::observe(&m)))).map_err(|e| e.to_string()),
    };
    match what {
        What::Lint | What::Validate => return reported(t, issues(m, *what == What::Lint)?),
        What::Json | What::Smithy(_) => match (read(w), read(t)) {
            (Ok(a), Ok(b)) => diff(&a, &b)?,
            (Err(_), Err(_)) => {}
            (a, b) => return Err(format!("library's text reads {:?}, the tool's {:?}", a.err(), b.err())),
        },
        What::Uml => super::describe::compare(&super::describe::uml_facts(w)?, &super::describe::uml_facts(t)?)?,
        What::Doc(_) => {}
    }
    let lines = |t: &str| {
        let mut v: Vec<Vec<String>> = t.split('\n').map(words).collect();
        v.sort();
        v
    };
    if w.len() != t.len() || words(w) != words(t) {
        let (a, b) = (lines(w), lines(t));
        return Err(format!("not what the library writes: only there {:?}, only here {:?}", a.iter().filter(|x| !b.contains(x)).take(3).collect::<Vec<_>>(), b.iter().filter(|x| !a.contains(x)).take(3).collect::<Vec<_>>()));
    }
    Ok("as the library")
}
fn every_model(c: &mut Ctx) {
    let mut all = super::iofam::models(c.thorough);
    for (k, base) in super::iofam::rich().iter().enumerate() {
        let step = if c.thorough { 1 } else { 23 };
        all.extend(super::iofam::neighbours(base).into_iter().step_by(step).map(|(w, s)| (format!("rich {k}: {w}"), s)));
    }
    let kinds = [What::Lint, What::Validate, What::Json, What::Smithy(Some("a")), What::Uml, What::Doc("markdown"), What::Doc("html")];
    for (i, (name, sp)) in all.into_iter().enumerate() {
        for (j, what) in kinds.iter().enumerate() {
            if !c.thorough && j >= 2 && (i + j) % 5 != 0 {
                continue;
            }
            c.case_o(&format!("the tool as the library: {what:?} of {name}"), true, || {
                let d = Scratch::new("cli");
                // finite numbers, closed models and so on are the library's matter
                d.put("m.json", as_json(&sp).as_bytes());
                let want = std::panic::catch_unwind(|| library(&d.0, "m.json", what)).unwrap_or(Err("panics".into()));
                let mut args: Vec<String> = match what {
                    What::Lint => vec!["lint".into()],
                    What::Validate => vec!["validate".into()],
                    What::Json => ["convert", "-w", "json"].iter().map(|s| s.to_string()).collect(),
                    What::Smithy(n) => ["convert", "-w", "smithy", "-n", n.unwrap()].iter().map(|s| s.to_string()).collect(),
                    What::Uml => ["convert", "-w", "uml"].iter().map(|s| s.to_string()).collect(),
                    What::Doc(f) => ["document", "-w", f].iter().map(|s| s.to_string()).collect(),
                };
                args.extend(["-i".to_string(), "m.json".into()]);
                if i % 2 == 0 {
                    args.insert(0, "--no-color".into());
                }
                let env: &[(&str, String)] = &[("CLICOLOR_FORCE", "1".into())];
                let r = run_tool(&d.0, &args, if i % 3 == 0 { env } else { &[] }, Stdout::Pipe)?;
                match want {
                    Err(e) => failed(&r).map(|_| "fails").map_err(|x| format!("{x}, but {e}")),
                    Ok(_) if r.code != Some(0) => Err(format!("fails ({:?}): {}", r.code, r.err)),
                    Ok((m, w)) => like(what, &m, &w, &r.out),
                }
            });
        }
    }
}
/// Many input files, each given by its own or one option, or as a directory.
fn many_files(c: &mut Ctx) {
    for n in [2usize, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600] {
        for how in ["one option", "an option each", "a directory", "a search path"] {
            for bad in [None, Some(0), Some(n / 2), Some(n - 1)] {
                for (cmd, what) in [("lint", What::Lint), ("validate", What::Validate), ("convert", What::Json)] {
                    c.case_o(&format!("{n} files by {how}, number {bad:?} malformed: {cmd}"), true, || {
                        let d = Scratch::new("cli");
                        let (mut args, mut sp) = (vec![cmd.to_string()], Spec::default());
                        let mut list = vec![];
                        for k in 0..n {
                            let mut one = Spec::default().with(&format!("a#thing_{k}"), Body::Structure(st(&[mem("m", &format!("a#thing_{}", (k + 1) % n)), mem("gone", &format!("a#Gone{k}"))])));
                            one.metadata.insert("all".into(), V::Arr(vec![V::Int(k as i64)]));
                            let f = format!("in/f{k}.{}", if k % 2 == 0 { "json" } else { "smithy" });
                            d.put(&f, if bad == Some(k) { "{ namespace".to_string() } else if k % 2 == 0 { as_json(&one) } else { as_idl(&one, "a") }.as_bytes());
                            sp = merge(&sp, &one).map_err(|_| "harness: merge".to_string())?;
                            list.push(f);
                        }
                        let mut env = vec![];
                        match how {
                            "one option" => {
                                args.push("-i".into());
                                args.extend(list);
                            }
                            "an option each" => args.extend(list.iter().flat_map(|f| ["--in-file".to_string(), f.clone()])),
                            "a directory" => args.extend(["-i".to_string(), "in".into()]),
                            _ => {
                                args.push("-d".into());
                                env.push(("SMITHY_PATH", list.iter().map(|f| d.0.join(f).display().to_string()).collect::<Vec<_>>().join(":")));
                            }
                        }
                        args.insert(0, "--no-color".into());
                        let r = run_tool(&d.0, &args, &env, Stdout::Pipe)?;
                        if bad.is_some() {
                            failed(&r)?;
                            if !r.out.is_empty() {
                                return Err(format!("prints {:?}", String::from_utf8_lossy(&r.out)));
                            }
                            return Ok("fails");
                        }
                        if r.code != Some(0) {
                            return Err(format!("fails ({:?}): {}", r.code, r.err));
                        }
                        is_document(&what, &norm(&sp), &r.out)
                    });
                }
            }
        }
    }
}
/// Files whose names could be taken for something else.
fn odd_names(c: &mut Ctx) {
    let names = ["atelier", "convert", "lint", "help", "json", "smithy", "a b", " ", "é", "漢字", "x=y", "-", "--", "-o", "a:b", "*", "$HOME", "'q'", "\"", "a\nb", "out", "null", "true", "0", "~", "%s", "{}", "in,put", "a;b"];
    let long = "n".repeat(240);
    for n in names.iter().copied().chain([long.as_str()]) {
        for prefix in [false, true] {
            for how in 0..4 {
                c.case_o(&format!("files and directories named {n:?}, prefix {prefix}, options {how}"), true, || {
                    let d = Scratch::new("cli");
                    let file = format!("{n}.json");
                    d.put(&file, as_json(&one()).as_bytes());
                    d.put(&format!("dir/{n}/two.smithy"), as_idl(&two(), "a").as_bytes());
                    d.put(&format!("dir/{n}/notes"), b"notes");
                    let mut args: Vec<String> = if prefix { vec!["atelier".into()] } else { vec![] };
                    // what starts with a dash can only be given with an equals sign
                    let dashed = n.starts_with('-');
                    let (i, o) = (format!("dir/{n}"), n.to_string());
                    let put = |opt: &str, long: &str, v: &str| -> Vec<String> {
                        match how {
                            _ if v.starts_with('-') => vec![format!("--{long}={v}")],
                            0 | 3 => vec![format!("-{opt}"), v.to_string()],
                            1 => vec![format!("--{long}={v}")],
                            _ => vec![format!("--{long}"), v.to_string()],
                        }
                    };
                    let _ = dashed;
                    args.push("convert".into());
                    let parts = [put("o", "out-file", &o), put("i", "in-file", &file), put("i", "in-file", &i)];
                    if how == 3 {
                        args.extend(parts.iter().rev().flatten().cloned());
                    } else {
                        args.extend(parts.concat());
                    }
                    let r = run_tool(&d.0, &args, &[], Stdout::Pipe)?;
                    if r.code != Some(0) {
                        return Err(format!("{args:?} fails ({:?}): {}", r.code, r.err));
                    }
                    if !r.out.is_empty() {
                        return Err(format!("{args:?} prints {:?}", String::from_utf8_lossy(&r.out)));
                    }
                    let mut left: Vec<String> = std::fs::read_dir(&d.0).unwrap().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
                    left.sort();
                    let mut want = vec![file.clone(), "dir".to_string(), o.clone()];
                    want.sort();
                    if left != want {
                        return Err(format!("{args:?} leaves {left:?}"));
                    }
                    is_document(&What::Json, &norm(&merge(&one(), &two()).unwrap()), &std::fs::read(d.0.join(&o)).map_err(|e| e.to_string())?)
                });
            }
        }
    }
}
/// Nobody reads what the tool prints.
fn broken_pipe(c: &mut Ctx) {
    for (cname, cmd, what) in commands(c) {
        for input in ["one.json", "poor.json", "big.json"] {
            c.case_o(&format!("{cname} {input} into a pipe that is closed"), true, || {
                let d = Scratch::new("cli");
                lay_out(&d);
                let mut big = one();
                for k in 0..2000 {
                    big = big.with(&format!("a#bad_{k}"), Body::Simple("string".into()));
                }
                d.put("big.json", as_json(&big).as_bytes());
                let _ = &what;
                let mut k = Command::new(tool());
                k.current_dir(&d.0).env_clear().args(&cmd).args(["-i", input]).stdin(Stdio::null()).stderr(Stdio::piped());
                // a process that has ended held the other end
                let mut end = Command::new("/bin/true").stdin(Stdio::piped()).spawn().map_err(|e| format!("harness: {e}"))?;
                let pipe = end.stdin.take().unwrap();
                end.wait().map_err(|e| format!("harness: {e}"))?;
                k.stdout(Stdio::from(pipe));
                let o = k.output().map_err(|e| format!("harness: {e}"))?;
                failed(&Ran { code: o.status.code(), out: vec![], err: String::from_utf8_lossy(&o.stderr).into() })?;
                Ok("fails to write")
            });
        }
    }
}

type Tree = BTreeMap<PathBuf, Vec<u8>>;
fn snapshot(d: &Path) -> Tree {
    let mut t = Tree::new();
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let p = e.path();
        if p.is_dir() && !p.is_symlink() {
            t.insert(p.clone(), vec![]);
            t.extend(snapshot(&p));
        } else {
            t.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
        }
    }
    t
}
fn unchanged(d: &Path, before: &Tree, but: Option<&Path>) -> Result<(), String> {
    let now = snapshot(d);
    for (p, b) in &now {
        if Some(p.as_path()) != but && before.get(p) != Some(b) {
            return Err(format!("{} was changed", p.display()));
        }
    }
    for p in before.keys() {
        if Some(p.as_path()) != but && !now.contains_key(p) {
            return Err(format!("{} was removed", p.display()));
        }
    }
    Ok(())
}

fn case(d: &Scratch, input: &Input, cmd: &[&str], what: &What, out: Out, style: usize, before: &Tree) -> Result<&'static str, String> {
    let mut args: Vec<String> = vec![];
    if style & 1 == 1 {
        args.push("atelier".into());
    }
    let mut env: Vec<(&str, String)> = input.env.iter().map(|(k, v)| (*k, v.split(':').map(|x| d.0.join(x).display().to_string()).collect::<Vec<_>>().join(":"))).collect();
    match style >> 1 {
        0 => args.push("--no-color".into()),
        _ => env.push(("CLICOLOR_FORCE", "1".into())),
    }
    args.extend(cmd.iter().map(|x| x.to_string()));
    let file = match out {
        Out::Stdout | Out::Full => None,
        Out::New => Some("out/new".to_string()),
        Out::Over(_) => Some("out/old".into()),
        Out::NoDir => Some("out/none/new".into()),
        Out::Dir => Some("out".into()),
        Out::FullFile => Some("/dev/full".into()),
        Out::Input => Some("out/in.json".into()),
    };
    let path = file.as_ref().map(|f| d.0.join(f));
    let old: Option<Vec<u8>> = match out {
        Out::Over("x") => Some(b"x".to_vec()),
        Out::Over("long") => Some(vec![b'}'; 100_000]),
        Out::Over(_) => Some(vec![]),
        Out::Input => Some(as_json(&other()).into_bytes()),
        _ => None,
    };
    for n in ["out/new", "out/old", "out/in.json"] {
        let _ = std::fs::remove_file(d.0.join(n));
    }
    if let (Some(o), Some(p)) = (&old, &path) {
        std::fs::write(p, o).map_err(|e| format!("harness: {e}"))?;
    }
    if let Some(f) = &file {
        args.extend([if style == 0 { "-o" } else { "--out-file" }.to_string(), f.clone()]);
    }
    args.extend(input.args.iter().map(|x| x.to_string()));
    let mut model = input.model.clone();
    if out == Out::Input {
        args.extend(["-i".to_string(), "out/in.json".into()]);
        model = match (input.args.last(), model) {
            (Some(&"-i"), _) => None,
            (_, Some(m)) => match merge(&m, &other()) {
                Ok(m) => Some(norm(&m)),
                Err(()) => None,
            },
            _ => None,
        };
    }
    let r = run_tool(&d.0, &args, &env, if out == Out::Full { Stdout::Full } else { Stdout::Pipe })?;
    let left = path.as_ref().filter(|p| p.is_file()).map(|p| std::fs::read(p).unwrap());
    let res = (|| {
        let ok = match (&model, what) {
            (None, _) => false,
            (Some(sp), What::Smithy(None)) => sp.shapes.keys().map(|k| k.split('#').next().unwrap()).collect::<std::collections::BTreeSet<_>>().len() == 1,
            _ => true,
        };
        if !ok {
            failed(&r)?;
            if !r.out.is_empty() {
                return Err(format!("prints {:?}", String::from_utf8_lossy(&r.out)));
            }
            if left != old {
                return Err("changes the output file".into());
            }
            return Ok("fails");
        }
        if matches!(out, Out::Full | Out::NoDir | Out::Dir | Out::FullFile) {
            failed(&r)?;
            if !r.out.is_empty() {
                return Err(format!("prints {:?}", String::from_utf8_lossy(&r.out)));
            }
            return Ok("fails to write");
        }
        if r.code != Some(0) {
            return Err(format!("fails ({:?}): {}", r.code, r.err));
        }
        let got = match &path {
            None => &r.out,
            Some(_) => {
                if !r.out.is_empty() {
                    return Err(format!("prints {:?}", String::from_utf8_lossy(&r.out)));
                }
                left.as_ref().ok_or("no file is written")?
            }
        };
        is_document(what, model.as_ref().unwrap(), got)
    })();
    for n in ["out/new", "out/old", "out/in.json"] {
        let _ = std::fs::remove_file(d.0.join(n));
    }
    unchanged(&d.0, before, None)?;
    res
}
