//! C19, C20: the assembler.
use super::fam::*;
use super::iofam::norm;
use super::merging::{merge_tr, perms, ref_merge, sort_arrays};
use crate::kit::bfs::same;
use crate::kit::gen::*;
use crate::kit::idl;
use crate::kit::json;
use crate::kit::order::with_seed;
use crate::kit::run::{guard, silent, Ctx};
use crate::kit::spec::*;
use crate::kit::sys::{with_plan, Plan};
use atelier_assembler::{FileType, FileTypeRegistry, ModelAssembler};
use atelier_core::io::ModelReader;
use atelier_core::model::Model;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// A scratch directory of this process, removed at the end.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let mut n = 0;
        loop {
            let p = base.join(format!("vp-{tag}-{}-{n}", std::process::id()));
            if std::fs::create_dir(&p).is_ok() {
                return Scratch(p.canonicalize().unwrap());
            }
            n += 1;
            assert!(n < 10000, "harness: no scratch directory");
        }
    }
    pub fn put(&self, name: &str, text: &[u8]) {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
    pub fn dir(&self, name: &str) {
        std::fs::create_dir_all(self.0.join(name)).unwrap();
    }
    pub fn link(&self, to: &str, name: &str) {
        std::os::unix::fs::symlink(to, self.0.join(name)).unwrap();
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn as_json(sp: &Spec) -> String {
    json::print(&super::json::ast(sp), json::Style::Compact)
}
pub fn as_idl(sp: &Spec, ns: &str) -> String {
    idl::print(&super::smithy::doc_of(sp, ns, false), idl::PLAIN).text()
}

fn meta_merge(a: &BTreeMap<String, V>, b: &BTreeMap<String, V>) -> Result<BTreeMap<String, V>, ()> {
    let w = |m: &BTreeMap<String, V>| -> Traits { m.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect() };
    Ok(merge_tr(&w(a), &w(b))?.into_iter().map(|(k, v)| (k, v.unwrap())).collect())
}
pub fn merge(a: &Spec, b: &Spec) -> Result<Spec, ()> {
    let mut o = a.clone();
    o.metadata = meta_merge(&a.metadata, &b.metadata)?;
    for (id, s) in &b.shapes {
        let n = match o.shapes.get(id) {
            None => s.clone(),
            Some(x) => ref_merge(x, s)?,
        };
        o.shapes.insert(id.clone(), n);
    }
    Ok(o)
}
fn merge_all(v: &[&Spec]) -> Result<Spec, ()> {
    v.iter().try_fold(Spec::default(), |a, b| merge(&a, b))
}

/// What the assembler answers: its model, or that it fails.
pub fn assemble(a: ModelAssembler) -> Result<Result<Spec, String>, String> {
    silent(|| guard(|| Model::try_from(a)))??.map(|m| Ok(norm(&Spec::observe(&m)))).or_else(|e| Ok(Err(e.to_string())))
}

fn contents() -> Vec<Spec> {
    let one = |id: &str, t: &[(&str, Option<V>)], b: Body| Spec { shapes: BTreeMap::from([(id.to_string(), Shape { traits: traits(t), body: b })]), ..Default::default() };
    let md = |kv: &[(&str, V)]| Spec { metadata: kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), ..Default::default() };
    let arr = |v: &[i64]| V::Arr(v.iter().map(|i| V::Int(*i)).collect());
    let string = || Body::Simple("string".into());
    let stx = |t: &[(&str, Option<V>)], tm: &[(&str, Option<V>)]| {
        let mut m = mem("m", "smithy.api#String");
        m.traits = traits(tm);
        one("a#S", t, Body::Structure(st(&[m, mem("n", "a#A")])))
    };
    let mut all = stx(&[("t#c", Some(s("q")))], &[("t#b", Some(arr(&[9])))]);
    all.metadata = md(&[("k", arr(&[4])), ("l", s("x"))]).metadata;
    all.shapes.extend(one("a#A", &[("t#a", None)], string()).shapes);
    vec![
        one("a#A", &[], string()),
        one("a#A", &[("t#b", Some(arr(&[2, 3])))], string()),
        one("a#A", &[("t#b", Some(arr(&[1]))), ("t#a", None)], Body::Unresolved),
        one("a#A", &[], Body::Simple("integer".into())),
        one("a#A", &[("t#a", None)], string()),
        stx(&[], &[("t#b", Some(arr(&[1])))]),
        stx(&[("t#c", Some(s("q")))], &[("t#b", Some(arr(&[2]))), ("t#d", None)]),
        stx(&[], &[("t#d", Some(V::Int(1)))]),
        md(&[("k", arr(&[1])), ("l", s("x"))]),
        md(&[("k", arr(&[2, 3])), ("m", V::None)]),
        md(&[("l", s("y"))]),
        one("a#V", &[], Body::Service(Svc { version: "1".into(), operations: strs(&["a#Op"]), ..Default::default() })),
        one("b#A", &[("t#a", Some(s("other namespace")))], string()),
        all,
    ]
}

/// Ways to lay out up to three files; the arguments that reach them.
const PLACES: [[&str; 3]; 4] = [["d/one", "d/two", "d/three"], ["d/one", "d/sub/two", "e/three"], ["d/z", "d/sub/deep/m", "d/a"], ["same", "d/same", "d/sub/same"]];

pub fn paths(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 1;
    c.rule = "every pair and (quick: every third) triple of 14 file contents that agree, complete or contradict each other, in every combination of the two formats, laid out in four ways over nested directories; every set of file and directory arguments, links and unusual spellings of the same paths, pushed in either order, under several hash seeds and several orders in which the system lists directories; 4 to 257 (1025 thorough) files in four layouts given in five ways, agreeing or with one of them contradicting; the answer must be the reference merge of the files reached (arrays up to order) and exactly the same for all arguments that reach the same files; non-trivial = two files overlap".into();
    let pool = contents();
    let n = pool.len();
    let mut sets: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    for i in 0..n {
        for j in 0..n {
            sets.push(vec![i, j]);
        }
    }
    let mut k = 0;
    for i in 0..n {
        for j in i..n {
            for l in j..n {
                k += 1;
                if c.thorough || k % 3 == 0 {
                    for p in if c.thorough { perms(3) } else { vec![vec![0, 1, 2]] } {
                        let q = [i, j, l];
                        sets.push(p.iter().map(|x| q[*x]).collect());
                    }
                }
            }
        }
    }
    many(c);
    for q in sets {
        for (pi, place) in PLACES.iter().enumerate() {
            for bits in 0..1u32 << q.len() {
                // three files: formats in turn
                if q.len() == 3 && !c.thorough && bits as usize % 4 != pi {
                    continue;
                }
                let formats: Vec<bool> = (0..q.len()).map(|i| bits & (1 << i) != 0).collect();
                let name = format!("contents {q:?} layout {pi} idl {formats:?}");
                if !c.mine(&name) {
                    continue;
                }
                let overlap = {
                    let mut keys: Vec<&String> = q.iter().flat_map(|i| pool[*i].shapes.keys().chain(pool[*i].metadata.keys())).collect();
                    let a = keys.len();
                    keys.sort();
                    keys.dedup();
                    keys.len() < a
                };
                let thorough = c.thorough;
                let mut runs = 0u64;
                c.case_o(&name, overlap, || scenario(&pool, &q, place, &formats, thorough, &mut runs));
                c.transitions += runs;
            }
        }
    }
}

/// Many files: laid out in one directory, each in its own, nested in each other or spread; given as
/// one directory, one by one, or both; agreeing, or with one that contradicts the first.
fn many(c: &mut Ctx) {
    let ns: Vec<usize> = (4..=12).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]).chain(if c.thorough { vec![511, 512, 513, 1000, 1025] } else { vec![] }).collect();
    for n in ns {
        for layout in ["flat", "own", "nested", "spread"] {
            if layout == "nested" && n > 600 {
                continue;
            }
            let mut bad: Vec<Option<usize>> = vec![None];
            bad.extend(if n <= 12 { (1..n).map(Some).collect() } else { vec![Some(1), Some(n / 2), Some(n - 1)] });
            for b in bad {
                let mut runs = 0;
                c.case_o(&format!("{n} files, {layout}, number {b:?} contradicts"), true, || {
                    let sc = Scratch::new("C19");
                    let mut files: Vec<String> = vec![];
                    let mut specs = vec![];
                    for i in 0..n {
                        let mut sp = Spec::default().with(&format!("a#S{i}"), Body::Simple("string".into()));
                        let sh = Shape { traits: traits(&[("t#all", Some(V::Arr(vec![V::Int(i as i64)]))), (&format!("t#t{i}"), None)]), body: if b == Some(i) { Body::Simple("blob".into()) } else { Body::Simple("integer".into()) } };
                        sp.shapes.insert("a#Shared".into(), sh);
                        sp.metadata.insert("all".into(), V::Arr(vec![V::Int(i as i64)]));
                        sp.metadata.insert(format!("k{i}"), V::Int(i as i64));
                        let ext = if i % 2 == 0 { "json" } else { "smithy" };
                        let name = match layout {
                            "flat" => format!("r/f{i}.{ext}"),
                            "own" => format!("r/d{i}/f.{ext}"),
                            "nested" => format!("r/{}f{i}.{ext}", "d/".repeat(i)),
                            _ => format!("r/d{}/d{}/f{i}.{ext}", i % 3, i % 5),
                        };
                        sc.put(&name, if i % 2 == 0 { as_json(&sp) } else { as_idl(&sp, "a") }.as_bytes());
                        files.push(name);
                        specs.push(sp);
                    }
                    let want = if b.is_some() { Err(()) } else { merge_all(&specs.iter().collect::<Vec<_>>()) };
                    let mut first: Option<Spec> = None;
                    for (w, (dir, rev, step)) in [(true, false, 0), (false, false, 1), (false, true, 1), (true, true, 2), (true, false, 1)].into_iter().enumerate() {
                        runs += 1;
                        let mut args: Vec<PathBuf> = if step > 0 { files.iter().step_by(step).map(|f| sc.0.join(f)).collect() } else { vec![] };
                        if dir {
                            args.insert(args.len() / 2, sc.0.join("r"));
                        }
                        if rev {
                            args.reverse();
                        }
                        let got = with_seed(w as u64 + 1, || {
                            with_plan(Plan { perm: Some(w as u64), ..Default::default() }, || {
                                let mut m = ModelAssembler::new(FileTypeRegistry::default(), None);
                                for a in &args {
                                    m.push(a);
                                }
                                assemble(m)
                            })
                            .0
                        })?;
                        if let Ok(g) = &got {
                            match &first {
                                None => first = Some(g.clone()),
                                Some(f) => diff(f, g).map_err(|e| format!("way {w}: not what other arguments for the same files gave: {e}"))?,
                            }
                        }
                        judge(&want, got).map_err(|e| format!("way {w}: {e}"))?;
                    }
                    Ok(if b.is_some() { "refused" } else { "merged" })
                });
                c.transitions += runs;
            }
        }
    }
}

fn scenario(pool: &[Spec], q: &[usize], place: &[&str; 3], formats: &[bool], thorough: bool, runs: &mut u64) -> Result<&'static str, String> {
    let sc = Scratch::new("C19");
    let mut files: Vec<(String, &Spec)> = vec![];
    for (i, k) in q.iter().enumerate() {
        let sp = &pool[*k];
        let ns = sp.shapes.keys().next().map(|x| x.split('#').next().unwrap().to_string()).unwrap_or("a".into());
        let (name, text) = if formats[i] { (format!("r/{}{i}.smithy", place[i]), as_idl(sp, &ns)) } else { (format!("r/{}{i}.json", place[i]), as_json(sp)) };
        sc.put(&name, text.as_bytes());
        files.push((name, sp));
    }
    for d in ["r/d/sub/deep", "r/e"] {
        sc.dir(d);
    }
    // the arguments: files, directories; and some other ways to spell them
    let mut args: Vec<String> = files.iter().map(|(f, _)| f.clone()).collect();
    args.extend(["r", "r/d", "r/d/sub", "r/e"].iter().map(|s| s.to_string()));
    let reach = |a: &str| -> Vec<usize> { (0..files.len()).filter(|i| files[*i].0 == a || files[*i].0.starts_with(&format!("{a}/"))).collect() };
    let mut seen: BTreeMap<Vec<usize>, Result<Spec, String>> = BTreeMap::new();
    let mut answer = |reached: Vec<usize>, what: &str, got: Result<Spec, String>| -> Result<(), String> {
        *runs += 1;
        match seen.get(&reached) {
            None => {
                let want = merge_all(&reached.iter().map(|i| files[*i].1).collect::<Vec<_>>());
                match (&want, &got) {
                    (Ok(w), Ok(g)) => diff(&sort_arrays(&norm(w)), &sort_arrays(g)).map_err(|e| format!("{what}: {e}"))?,
                    (Err(()), Err(_)) => {}
                    (Ok(_), Err(e)) => return Err(format!("{what}: fails: {e}")),
                    (Err(()), Ok(_)) => return Err(format!("{what}: succeeds although the files contradict each other")),
                }
                seen.insert(reached, got);
            }
            Some(x) => match (x, &got) {
                (Ok(a), Ok(b)) => diff(a, b).map_err(|e| format!("{what}: not what other arguments for the same files gave: {e}"))?,
                (Err(_), Err(_)) => {}
                (_, g) => return Err(format!("{what}: only sometimes fails: {:?}", g.as_ref().err())),
            },
        }
        Ok(())
    };
    let root = sc.0.clone();
    let go = |args: &[PathBuf], rev: bool, seed: u64, perm: u64| -> Result<Result<Spec, String>, String> {
        with_seed(seed, || {
            with_plan(Plan { perm: Some(perm), ..Default::default() }, || {
                let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
                let mut v: Vec<&PathBuf> = args.iter().collect();
                if rev {
                    v.reverse();
                }
                for (i, p) in v.iter().enumerate() {
                    if (i % 2 == 0) == rev {
                        a.push(p);
                    } else {
                        a.push_str(p.to_str().unwrap());
                    }
                }
                assemble(a)
            })
            .0
        })
    };
    let variants: &[(bool, u64, u64)] = if thorough { &[(false, 1, 0), (true, 2, 5), (false, 3, 3), (true, 4, 1), (false, 5, 4), (true, 6, 2)] } else { &[(false, 1, 0), (true, 2, 5), (false, 3, 3)] };
    for bits in 1u32..1 << args.len() {
        let sel: Vec<&String> = (0..args.len()).filter(|i| bits & (1 << i) != 0).map(|i| &args[i]).collect();
        let reached: BTreeSet<usize> = sel.iter().flat_map(|a| reach(a)).collect();
        let abs: Vec<PathBuf> = sel.iter().map(|a| root.join(a)).collect();
        // every set once, small and complete sets under every variant
        let n = if sel.len() <= 2 || bits + 1 == 1 << args.len() { variants.len() } else { 1 };
        for (i, (rev, seed, perm)) in variants.iter().enumerate().skip(bits as usize % variants.len()).chain(variants.iter().enumerate()).take(n) {
            let got = go(&abs, *rev, *seed, *perm)?;
            answer(reached.iter().cloned().collect(), &format!("arguments {sel:?} variant {i}"), got)?;
        }
    }
    // every argument in every spelling, through either call
    for a in &args {
        let p = root.join(a).display().to_string();
        let (parent, last) = p.rsplit_once('/').unwrap();
        let is_dir = root.join(a).is_dir();
        let mut spellings = vec![format!("{parent}//{last}"), format!("{parent}/./{last}"), format!("/{p}"), format!("{parent}/../{}/{last}", parent.rsplit_once('/').unwrap().1)];
        if is_dir {
            spellings.extend([format!("{p}/"), format!("{p}//"), format!("{p}/."), format!("{p}/./")]);
        }
        // what names no file is an error
        let nothing = if is_dir { vec![format!("{p}x"), format!(" {p}"), format!("{p} "), format!("{p}\n")] } else { vec![format!("{p}/"), format!("{p}/."), format!("{p}/x"), format!("{p} "), format!(" {p}"), p[..p.len() - 1].to_string()] };
        for (sp, reaches) in spellings.iter().map(|s| (s, true)).chain(nothing.iter().map(|s| (s, false))) {
            for by_str in [false, true] {
                let got = with_plan(Plan { perm: Some(0), ..Default::default() }, || {
                    let mut m = ModelAssembler::new(FileTypeRegistry::default(), None);
                    if by_str {
                        m.push_str(sp);
                    } else {
                        m.push(&PathBuf::from(sp));
                    }
                    assemble(m)
                })
                .0?;
                let what = format!("argument {:?} by {}", sp.replace(&root.display().to_string(), "<root>"), if by_str { "push_str" } else { "push" });
                if reaches {
                    answer(reach(a), &what, got)?;
                } else if got.is_ok() {
                    return Err(format!("{what}: names nothing, yet it succeeds"));
                }
            }
        }
    }
    // other spellings, alone and next to the plain one
    sc.link("r", "ln");
    sc.link("../d/sub", "r/e/lnsub");
    sc.link(".", "r/loop");
    sc.link("../..", "r/d/up");
    let all: Vec<usize> = (0..files.len()).collect();
    for seed in 1..4u64 {
        for (w, v) in [
            ("dots", vec![root.join("r/./d/..")]),
            ("dots and plain", vec![root.join("r/d/../../r"), root.join("r")]),
            ("link", vec![root.join("ln")]),
            ("link and plain", vec![root.join("ln"), root.join("r")]),
            ("looping links", vec![root.join("r/loop/loop/d/up/r"), root.join("r/e/lnsub")]),
            ("files twice", files.iter().flat_map(|(f, _)| [root.join(f), root.join(format!("ln{}", &f[1..])), root.join(format!("r/e/../{}", &f[2..]))]).collect()),
            ("slash", vec![PathBuf::from(format!("{}/", root.join("r").display()))]),
        ] {
            let got = go(&v, seed % 2 == 0, seed, seed)?;
            answer(all.clone(), w, got)?;
        }
    }
    let got = go(&[root.join("r/e/lnsub")], false, 1, 0)?;
    answer(reach("r/d/sub"), "link to a directory", got)?;
    Ok(match seen.get(&all) {
        Some(Ok(_)) => "merged",
        _ => "refused",
    })
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone)]
enum What {
    /// a file that gives a model if read as IDL (or JSON)
    Good(Spec),
    Bad,
    /// nothing to read: never an error
    Nothing,
}
struct Entry {
    name: &'static str,
    /// the extension that selects the format, lower case
    ext: &'static str,
    what: What,
    make: fn(&Scratch, &str),
}

fn entries() -> Vec<Entry> {
    fn spec(id: &str, kind: &str) -> Spec {
        Spec::default().with(id, Body::Simple(kind.into()))
    }
    let g = |id: &str| What::Good(spec(id, "string"));
    macro_rules! put {
        ($text:expr) => {
            |s: &Scratch, n: &str| s.put(n, $text.as_bytes())
        };
    }
    vec![
        Entry { name: "good.smithy", ext: "smithy", what: g("g#Good"), make: put!("namespace g\nstring Good\n") },
        Entry { name: "UPPER.SMITHY", ext: "smithy", what: g("g#Upper"), make: put!("namespace g\nstring Upper\n") },
        Entry { name: "mixed.JsOn", ext: "json", what: g("g#Mixed"), make: put!("{\"smithy\":\"1.0\",\"shapes\":{\"g#Mixed\":{\"type\":\"string\"}}}") },
        Entry { name: "plain.json", ext: "json", what: g("g#Json"), make: put!("{\"smithy\":\"1.0\",\"shapes\":{\"g#Json\":{\"type\":\"string\"}}}") },
        Entry { name: "white space é.smithy", ext: "smithy", what: g("g#Space"), make: put!("namespace g\nstring Space\n") },
        Entry { name: "two.dots.smithy", ext: "smithy", what: g("g#Dots"), make: put!("namespace g\nstring Dots\n") },
        Entry { name: "sub/inner.smithy", ext: "smithy", what: g("g#Inner"), make: put!("namespace g\nstring Inner\n") },
        Entry { name: "dir.smithy/x.json", ext: "json", what: g("g#InDir"), make: put!("{\"smithy\":\"1.0\",\"shapes\":{\"g#InDir\":{\"type\":\"string\"}}}") },
        Entry { name: "a/b/c/d/e/f/deep.smithy", ext: "smithy", what: g("g#Deep"), make: put!("namespace g\nstring Deep\n") },
        Entry { name: ".hidden/h.smithy", ext: "smithy", what: g("g#Hidden"), make: put!("namespace g\nstring Hidden\n") },
        Entry { name: ".dot.smithy", ext: "smithy", what: g("g#Dot"), make: put!("namespace g\nstring Dot\n") },
        Entry { name: "link.smithy", ext: "smithy", what: g("g#Linked"), make: |s, n| { s.put("outside/linked.txt", b"namespace g\nstring Linked\n"); s.link("../outside/linked.txt", n) } },
        Entry { name: "linkdir", ext: "smithy", what: g("g#Out"), make: |s, n| { s.put("outside2/out.smithy", b"namespace g\nstring Out\n"); s.link("../outside2", n) } },
        Entry { name: "note.txt", ext: "txt", what: g("g#Note"), make: put!("namespace g\nstring Note\n") },
        Entry { name: "bad.smithy", ext: "smithy", what: What::Bad, make: put!("namespace g\nstring\n") },
        Entry { name: "bad.json", ext: "json", what: What::Bad, make: put!("{\"smithy\":\"1.0\",\"shapes\":") },
        Entry { name: "wrong.json", ext: "json", what: What::Bad, make: put!("namespace g\nstring Wrong\n") },
        Entry { name: "wrong.smithy", ext: "smithy", what: What::Bad, make: put!("{\"smithy\":\"1.0\",\"shapes\":{}}") },
        Entry { name: "utf8.smithy", ext: "smithy", what: What::Bad, make: |s, n| s.put(n, b"namespace g\nstring \xff\n") },
        Entry { name: "utf8.json", ext: "json", what: What::Bad, make: |s, n| s.put(n, b"{\"smithy\":\"1.0\",\"metadata\":{\"k\":\"\xff\"}}") },
        Entry { name: "empty.json", ext: "json", what: What::Bad, make: put!("") },
        Entry { name: "conflict.smithy", ext: "smithy", what: What::Good(spec("g#Good", "integer")), make: put!("namespace g\ninteger Good\n") },
        Entry { name: "again.smithy", ext: "smithy", what: g("g#Good"), make: put!("namespace g\nstring Good\n") },
        Entry { name: "README", ext: "", what: What::Nothing, make: put!("namespace g\nstring\n") },
        Entry { name: ".smithy", ext: "", what: What::Nothing, make: put!("namespace g\nstring\n") },
        Entry { name: "good.smithy.bak", ext: "bak", what: What::Nothing, make: put!("nonsense") },
        Entry { name: "good.smithy~", ext: "smithy~", what: What::Nothing, make: put!("nonsense") },
        Entry { name: "smithy", ext: "", what: What::Nothing, make: put!("nonsense") },
        Entry { name: "trailing.", ext: "", what: What::Nothing, make: put!("nonsense") },
        Entry { name: "none.smithy", ext: "", what: What::Nothing, make: |s, n| s.dir(n) },
        Entry { name: "loop", ext: "", what: What::Nothing, make: |s, n| s.link(".", n) },
        Entry { name: ".#lock.smithy", ext: "", what: What::Nothing, make: |s, n| s.link("user@host.1", n) },
        Entry { name: "pipe.smithy", ext: "", what: What::Nothing, make: |s, n| mkfifo(&s.0.join(n)) },
    ]
}
fn mkfifo(p: &Path) {
    extern "C" {
        fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    }
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0, "harness: mkfifo");
}

const REGISTRIES: [(&str, &[&str]); 5] = [("default", &["smithy", "json"]), ("smithy only", &["smithy"]), ("json only", &["json"]), ("none", &[]), ("smithy and txt", &["smithy", "txt"])];
fn registry(i: usize) -> FileTypeRegistry {
    let idl = || FileType::new("idl", |f| atelier_smithy::SmithyReader::default().read(f));
    match i {
        0 => FileTypeRegistry::default(),
        1 => {
            let mut r = FileTypeRegistry::empty();
            r.register(idl(), "Smithy");
            r
        }
        2 => {
            let mut r = FileTypeRegistry::default();
            let _ = r.remove("SMITHY");
            r
        }
        3 => FileTypeRegistry::empty(),
        _ => {
            let mut r = FileTypeRegistry::empty();
            r.register_all(idl(), &["smithy", "TXT"]);
            r
        }
    }
}

fn judge(want: &Result<Spec, ()>, got: Result<Spec, String>) -> Result<&'static str, String> {
    match (want, got) {
        (Ok(w), Ok(g)) => diff(&sort_arrays(&norm(w)), &sort_arrays(&g)).map(|_| "model"),
        (Err(()), Err(_)) => Ok("error"),
        (Ok(_), Err(e)) => Err(format!("fails: {e}")),
        (Err(()), Ok(g)) => Err(format!("succeeds with {}", g.show())),
    }
}

pub fn discovery(c: &mut Ctx) {
    c.level = "model_checking";
    c.per_case = 1;
    c.rule = "every directory with up to two (and every third with three; all thorough) of 33 entries - good, malformed, contradicting, unregistered, hidden, oddly named, links, loops, pipes, nested and empty directories - under five registries; paths that do not exist; every one and two (three thorough) of 40 places of four file names in ten directories, same-named ones under different parents among them; a file below 0 to 200 (400 thorough) directories or links; up to 600 entries in one directory with one that differs; files of up to a megabyte; every search path of up to three such directories, and the default one; every file system call made failing in turn with each of four errors, once or for good, and short and interrupted reads; every history of up to three (four thorough) registry operations; non-trivial = something is found".into();
    let es = entries();
    let n = es.len();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let mut k = 0;
    for i in 0..n {
        sets.push(vec![i]);
        for j in i + 1..n {
            sets.push(vec![i, j]);
            for l in j + 1..n {
                k += 1;
                if c.thorough || k % 3 == 0 {
                    sets.push(vec![i, j, l]);
                }
            }
        }
    }
    for q in &sets {
        for (ri, (rn, exts)) in REGISTRIES.iter().enumerate() {
            if q.len() == 3 && !c.thorough && ri != 0 && (q.iter().sum::<usize>() + ri) % 5 != 0 {
                continue;
            }
            let names: Vec<&str> = q.iter().map(|i| es[*i].name).collect();
            let es = &es;
            c.case_o(&format!("{names:?}, registry {rn}"), !q.is_empty(), || {
                let sc = Scratch::new("C20");
                sc.dir("r");
                let mut found = vec![];
                let mut bad = false;
                for i in q {
                    (es[*i].make)(&sc, &format!("r/{}", es[*i].name));
                    if exts.contains(&es[*i].ext) {
                        match &es[*i].what {
                            What::Good(s) => found.push(s),
                            What::Bad => bad = true,
                            What::Nothing => {}
                        }
                    }
                }
                let want = if bad { Err(()) } else { merge_all(&found) };
                let mut a = ModelAssembler::new(registry(ri), None);
                let _ = a.push(&sc.0.join("r"));
                same("paths", a.len(), 1)?;
                let files: BTreeSet<PathBuf> = silent(|| a.expand_file_paths())?.into_iter().collect();
                let nread = q.iter().filter(|i| exts.contains(&es[**i].ext) && !matches!(es[**i].what, What::Nothing)).count();
                same("number of files", files.len(), nread)?;
                judge(&want, assemble(a)?)
            });
        }
    }
    // single files as arguments; things that are not there
    for (i, e) in es.iter().enumerate() {
        for (ri, (rn, exts)) in REGISTRIES.iter().enumerate() {
            c.case_o(&format!("argument {}, registry {rn}", e.name), true, || {
                let sc = Scratch::new("C20");
                sc.dir("r");
                (e.make)(&sc, &format!("r/{}", e.name));
                let mut a = ModelAssembler::new(registry(ri), None);
                let _ = a.push_str(sc.0.join("r").join(e.name).to_str().unwrap());
                // a link that leads nowhere is not there
                let want = if e.name == ".#lock.smithy" {
                    Err(())
                } else if !exts.contains(&e.ext) {
                    Ok(Spec::default())
                } else {
                    match &e.what {
                        What::Good(s) => Ok(s.clone()),
                        What::Bad => Err(()),
                        What::Nothing => Ok(Spec::default()),
                    }
                };
                judge(&want, assemble(a)?)
            });
        }
        c.case_o(&format!("{} and something that does not exist", e.name), true, || {
            for missing in ["r/missing.smithy", "r/missing", "r/missing.txt", "nowhere/x.json", "r/README2/x"] {
                let sc = Scratch::new("C20");
                sc.dir("r");
                (es[i].make)(&sc, &format!("r/{}", es[i].name));
                for alone in [false, true] {
                    let mut a = ModelAssembler::new(registry(0), None);
                    if !alone {
                        let _ = a.push(&sc.0.join("r"));
                    }
                    let _ = a.push(&sc.0.join(missing));
                    judge(&Err(()), assemble(a)?).map_err(|e| format!("{missing}: {e}"))?;
                }
            }
            Ok("error")
        });
    }
    layouts(c);
    crowds(c);
    search_paths(c);
    faults(c);
    registries(c);
}

/// Files of the same names in directories of the same names: every file counts by its whole path.
fn layouts(c: &mut Ctx) {
    let mut places = vec![];
    for d in ["r", "r/a", "r/b", "r/a/m", "r/b/m", "r/.m", "r/a/.m", "r/a/a", "r/target", "r/A/m"] {
        for f in ["x.smithy", "x.json", ".x.smithy", "X.smithy"] {
            places.push(format!("{d}/{f}"));
        }
    }
    let n = places.len();
    let mut sets: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        sets.push(vec![i]);
        for j in i + 1..n {
            sets.push(vec![i, j]);
            if c.thorough {
                sets.extend((j + 1..n).map(|k| vec![i, j, k]));
            }
        }
    }
    sets.push((0..n).collect());
    for q in &sets {
        for twice in [false, true] {
            let places = &places;
            c.case_o(&format!("files {:?}, each directory named too: {twice}", q.iter().map(|i| &places[*i]).collect::<Vec<_>>()), true, || {
                let sc = Scratch::new("C20");
                sc.dir("r");
                let mut want = Spec::default();
                let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
                let _ = a.push(&sc.0.join("r"));
                for i in q {
                    let p = sc.0.join(&places[*i]);
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    let sp = Spec::default().with(&format!("a#S{i}"), Body::Simple("string".into()));
                    let text = if places[*i].ends_with("json") {
                        format!("{{\"smithy\":\"1.0\",\"shapes\":{{\"a#S{i}\":{{\"type\":\"string\"}}}}}}")
                    } else {
                        format!("namespace a\nstring S{i}\n")
                    };
                    std::fs::write(&p, text).unwrap();
                    if twice {
                        let _ = a.push(p.parent().unwrap());
                        let _ = a.push(&p);
                    }
                    want.shapes.extend(sp.shapes);
                }
                same("number of files", silent(|| a.expand_file_paths())?.into_iter().collect::<BTreeSet<_>>().len(), q.len())?;
                judge(&Ok(want), assemble(a)?)
            });
        }
    }
}

/// Deep and crowded directories, and large files: what is found does not depend on how deep it lies,
/// what stands beside it or how long its text is.
fn crowds(c: &mut Ctx) {
    let good = |i: usize| Spec::default().with(&format!("a#S{i}"), Body::Simple("string".into()));
    let check = |sc: &Scratch, want: Result<Spec, ()>, files: usize| {
        let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
        let _ = a.push(&sc.0.join("r"));
        same("number of files", silent(|| a.expand_file_paths())?.into_iter().collect::<BTreeSet<_>>().len(), files)?;
        judge(&want, assemble(a)?)
    };
    // one file at the bottom of so many directories, and one beside each of them
    let max = if c.thorough { 400 } else { 200 };
    for depth in 0..=max {
        for beside in [false, true] {
            for linked in [false, true] {
                if linked && depth > 35 || beside && depth > 100 {
                    continue;
                }
                c.case_o(&format!("{depth} directories deep, files beside {beside}, linked {linked}"), depth > 1, || {
                    let sc = Scratch::new("C20");
                    let (mut want, mut p, mut n) = (good(0), "r/".to_string(), 1);
                    sc.dir("r");
                    sc.dir("o");
                    for i in 1..=depth {
                        if linked {
                            // each directory is a link to one elsewhere
                            sc.dir(&format!("o/{i}"));
                            sc.link(sc.0.join(format!("o/{i}")).to_str().unwrap(), if i == 1 { "r/l" } else { &p[..p.len() - 1] });
                            p = format!("o/{i}/l/");
                        } else {
                            p.push_str(if i % 2 == 0 { "d/" } else { "e.json/" });
                        }
                        if beside {
                            let at = if linked { format!("o/{i}/") } else { p.clone() };
                            sc.put(&format!("{at}f{i}.smithy"), as_idl(&good(i), "a").as_bytes());
                            want = merge(&want, &good(i)).unwrap();
                            n += 1;
                        }
                    }
                    let at = match (linked, depth) {
                        (true, 1..) => format!("o/{depth}/"),
                        _ => p,
                    };
                    sc.put(&format!("{at}bottom.json"), as_json(&good(0)).as_bytes());
                    check(&sc, Ok(want), n)
                });
            }
        }
    }
    // one file that matters among many that do not, or one that is bad among many good
    for n in (1..=10).chain([16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 600]) {
        let mut at: Vec<usize> = if n <= 10 { (0..n).collect() } else { vec![0, n / 2, n - 1] };
        at.dedup();
        for k in at {
            for what in ["one good", "one malformed", "one contradicting", "one foreign", "one directory", "one link to the first"] {
                c.case_o(&format!("{n} entries, number {k} of {what}"), n > 1, || {
                    let sc = Scratch::new("C20");
                    let mut want = Ok(Spec::default());
                    let mut files = 0;
                    sc.dir("r");
                    for i in 0..n {
                        let ordinary = what != "one good";
                        match (i == k, what) {
                            (true, "one good") | (false, _) if ordinary || i == k => {
                                let (x, t) = if i % 3 == 0 { ("JSON", as_json(&good(i))) } else { ("smithy", as_idl(&good(i), "a")) };
                                sc.put(&format!("r/f{i:03}.{x}"), t.as_bytes());
                                want = want.and_then(|w| merge(&w, &good(i)));
                                files += 1;
                            }
                            (false, _) => sc.put(&format!("r/f{i:03}.{}", ["txt", "smithy~", "jsonx", "rs"][i % 4]), b"{ not a model"),
                            (_, "one malformed") => {
                                sc.put(&format!("r/f{i:03}.smithy"), b"namespace a\nstrin S\n");
                                want = Err(());
                                files += 1;
                            }
                            (_, "one contradicting") => {
                                sc.put(&format!("r/f{i:03}.smithy"), b"namespace a\nblob S0\ninteger S1\n");
                                if n > 1 {
                                    want = Err(());
                                } else {
                                    want = want.map(|w| w.with("a#S0", Body::Simple("blob".into())).with("a#S1", Body::Simple("integer".into())));
                                }
                                files += 1;
                            }
                            (_, "one foreign") => sc.put(&format!("r/f{i:03}.yaml"), b"{ not a model"),
                            (_, "one directory") => {
                                sc.put(&format!("r/f{i:03}.json/x.json"), as_json(&good(i)).as_bytes());
                                want = want.and_then(|w| merge(&w, &good(i)));
                                files += 1;
                            }
                            _ if n > 1 => sc.link(if k == 0 { "f001.smithy" } else { "f000.JSON" }, &format!("r/f{i:03}.{}", if k == 0 { "smithy" } else { "JSON" })),
                            _ => {}
                        }
                    }
                    check(&sc, want, files)
                });
            }
        }
    }
    // long texts: what matters stands behind so many bytes, good or bad
    for len in [0usize, 1, 100, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131072, 1 << 20] {
        for kind in ["idl comment", "idl text", "json space", "json text"] {
            for bad in [false, true] {
                for ch in ["x", "é", "漢"] {
                    if len > 100_000 && (ch != "x" || kind == "idl text") && !c.thorough {
                        continue;
                    }
                    c.case_o(&format!("{len} bytes of {ch} in {kind}, bad {bad}"), true, || {
                        let sc = Scratch::new("C20");
                        let pad = ch.repeat(len / ch.len());
                        let mut want = good(0);
                        match kind {
                            "idl comment" => sc.put("r/f.smithy", format!("// {pad}\nnamespace a\n// {pad}\n{} S0\n", if bad { "strin" } else { "string" }).as_bytes()),
                            "idl text" => {
                                want.metadata.insert("k".into(), s(&pad));
                                sc.put("r/f.smithy", format!("metadata k = \"{pad}\"\nnamespace a\n{} S0\n", if bad { "strin" } else { "string" }).as_bytes())
                            }
                            "json space" => sc.put("r/f.json", format!("{{{}\"smithy\":\"1.0\",\"shapes\":{{\"a#S0\":{{\"type\":\"string\"}}}}{}", " ".repeat(len), if bad { "" } else { "}" }).as_bytes()),
                            _ => {
                                want.metadata.insert("k".into(), s(&pad));
                                sc.put("r/f.json", format!("{{\"smithy\":\"1.0\",\"metadata\":{{\"k\":\"{pad}\"}},\"shapes\":{{\"a#S0\":{{\"type\":\"string\"}}}}{}", if bad { "" } else { "}" }).as_bytes())
                            }
                        }
                        check(&sc, if bad { Err(()) } else { Ok(want) }, 1)
                    });
                }
            }
        }
    }
}

fn search_paths(c: &mut Ctx) {
    let dirs = ["p/a", "p/b", "p/sub", "p/one.smithy", "p/missing", ""];
    let mut lists: Vec<Vec<usize>> = vec![];
    for l in sequences(dirs.len(), 3) {
        lists.push(l);
    }
    for l in lists {
        for how in ["given", "variable", "default"] {
            let name = format!("search path {:?} {how}", l.iter().map(|i| dirs[*i]).collect::<Vec<_>>());
            c.case_o(&name, !l.is_empty(), || {
                let sc = Scratch::new("C20");
                sc.put("p/a/x.smithy", b"namespace a\nstring X\n");
                sc.put("p/a/deep/y.json", b"{\"smithy\":\"1.0\",\"shapes\":{\"a#Y\":{\"type\":\"blob\"}}}");
                sc.put("p/b/z.smithy", b"namespace b\nstring Z\n");
                sc.put("p/one.smithy", b"namespace c\nstring One\n");
                sc.link("a/deep", "p/sub");
                let mut want = Spec::default();
                for i in &l {
                    let add: &[(&str, &str)] = match *i {
                        0 => &[("a#X", "string"), ("a#Y", "blob")],
                        1 => &[("b#Z", "string")],
                        2 => &[("a#Y", "blob")],
                        3 => &[("c#One", "string")],
                        _ => &[],
                    };
                    for (id, k) in add {
                        want = want.with(id, Body::Simple(k.to_string()));
                    }
                }
                let text = l.iter().map(|i| if dirs[*i].is_empty() { String::new() } else { sc.0.join(dirs[*i]).to_str().unwrap().to_string() }).collect::<Vec<_>>().join(":");
                use search_path::SearchPath;
                let a = match how {
                    "given" => ModelAssembler::new(FileTypeRegistry::default(), Some(SearchPath::from(text.as_str()))),
                    "variable" => {
                        std::env::set_var("VP_PATH", &text);
                        ModelAssembler::new(FileTypeRegistry::default(), SearchPath::new("VP_PATH").ok())
                    }
                    _ => {
                        std::env::set_var("SMITHY_PATH", &text);
                        let a = ModelAssembler::default();
                        std::env::remove_var("SMITHY_PATH");
                        a
                    }
                };
                judge(&Ok(want), assemble(a)?)
            });
        }
    }
}

fn faults(c: &mut Ctx) {
    let build = || -> (Scratch, Spec) {
        let sc = Scratch::new("C20");
        sc.put("r/a.smithy", b"namespace a\nstring A\nlist L { member: A }\n");
        sc.put("r/sub/b.json", as_json(&Spec::default().with("b#B", Body::Set(mem("member", "a#A")))).as_bytes());
        sc.put("r/sub/c.smithy", b"namespace c\ninteger C\n");
        sc.put("x.json", as_json(&Spec::default().with("x#X", Body::Simple("blob".into()))).as_bytes());
        let mut w = Spec::default().with("a#A", Body::Simple("string".into())).with("a#L", Body::List(mem("member", "a#A")));
        w = w.with("b#B", Body::Set(mem("member", "a#A"))).with("c#C", Body::Simple("integer".into())).with("x#X", Body::Simple("blob".into()));
        (sc, w)
    };
    let run = |sc: &Scratch, p: Plan| {
        let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
        let _ = a.push(&sc.0.join("r"));
        let _ = a.push(&sc.0.join("x.json"));
        with_plan(p, || assemble(a))
    };
    let calls = {
        let (sc, _) = build();
        run(&sc, Plan::default()).1
    };
    for (what, least) in [("open", 4), ("opendir", 2), ("readdir", 4), ("read", 4)] {
        assert!(calls.iter().filter(|c| **c == what).count() >= least, "harness: the file system calls are not seen: {calls:?}");
    }
    for i in 0..calls.len() as u64 {
        // EACCES, EIO, EMFILE, ENOMEM
        for e in [13, 5, 24, 12] {
            for sticky in [false, true] {
                c.case_o(&format!("call {i} ({}) fails with {e}{}", calls[i as usize], if sticky { " for good" } else { "" }), true, || {
                    let (sc, _) = build();
                    let (got, _) = run(&sc, Plan { fail: Some((i, e)), sticky, ..Default::default() });
                    judge(&Err(()), got?)
                });
            }
        }
    }
    for short in [1usize, 2, 3, 7, 100] {
        for eintr in [false, true] {
            for perm in 0..6 {
                c.case_o(&format!("reads of at most {short} bytes, interrupted: {eintr}, listing {perm}"), true, || {
                    let (sc, want) = build();
                    let (got, _) = run(&sc, Plan { short: Some(short), eintr, perm: Some(perm), ..Default::default() });
                    judge(&Ok(want), got?)
                });
            }
        }
    }
}

fn registries(c: &mut Ctx) {
    // operations: register type t for extension e; register t for both; remove e
    let exts = ["x", "X", "y", "é", "É"];
    let types: Vec<(&str, Option<&str>)> = vec![("T0", None), ("T1", Some("text/One")), ("T2", Some("text/one; charset=UTF-8"))];
    #[derive(Clone, Copy)]
    enum O {
        Reg(usize, usize),
        All(usize),
        Del(usize),
    }
    let mut ops = vec![];
    for t in 0..types.len() {
        for e in 0..exts.len() {
            ops.push(O::Reg(t, e));
        }
        ops.push(O::All(t));
    }
    for e in 0..exts.len() {
        ops.push(O::Del(e));
    }
    for h in sequences(ops.len(), if c.thorough { 4 } else { 3 }) {
        let name = format!("registry operations {h:?}");
        let (ops, types) = (&ops, &types);
        c.case_o(&name, true, || {
            let files: Vec<Rc<FileType>> = types
                .iter()
                .map(|(n, m)| match m {
                    None => FileType::new(n, |_| Ok(Model::default())),
                    Some(m) => FileType::new_with_mime_type(n, |_| Ok(Model::default()), m),
                })
                .collect();
            let mut r = FileTypeRegistry::empty();
            let mut want: BTreeMap<String, usize> = BTreeMap::new();
            let mut mime: BTreeMap<String, usize> = BTreeMap::new();
            for o in &h {
                match ops[*o] {
                    O::Reg(t, e) => {
                        r.register(files[t].clone(), exts[e]);
                        want.insert(exts[e].to_lowercase(), t);
                        if let Some(m) = types[t].1 {
                            mime.insert(m.to_lowercase(), t);
                        }
                    }
                    O::All(t) => {
                        r.register_all(files[t].clone(), &["y", "X"]);
                        want.insert("y".into(), t);
                        want.insert("x".into(), t);
                        if let Some(m) = types[t].1 {
                            mime.insert(m.to_lowercase(), t);
                        }
                    }
                    O::Del(e) => {
                        let got = r.remove(exts[e]).map(|f| f.name().clone());
                        same("removed", got, want.remove(&exts[e].to_lowercase()).map(|t| types[t].0.to_string()))?;
                    }
                }
                for e in exts {
                    let w = want.get(&e.to_lowercase()).map(|t| types[*t].0.to_string());
                    same(&format!("contains {e}"), r.contains(e), w.is_some())?;
                    let m = want.get(&e.to_lowercase()).map(|t| types[*t].1.map(str::to_string));
                    same(&format!("get {e}"), r.get(e).map(|f| f.name().clone()), w)?;
                    same(&format!("mime type of {e}"), r.get(e).map(|f| f.mime_type().clone()), m)?;
                }
                same("extensions", r.extensions().cloned().collect::<BTreeSet<_>>(), want.keys().cloned().collect::<BTreeSet<_>>())?;
                for (n, m) in types.iter() {
                    if let Some(m) = m {
                        for q in [m.to_string(), m.to_uppercase()] {
                            same(&format!("type of {q}"), r.get_by_mime_type(&q).map(|f| f.name().clone()), mime.get(&m.to_lowercase()).map(|t| types[*t].0.to_string()))?;
                        }
                        let _ = n;
                    }
                }
            }
            Ok("ok")
        });
    }
}
