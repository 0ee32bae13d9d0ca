//! C01 / C02: the identifier types against a hand-written recogniser of the Smithy 1.0 ABNF.
use crate::kit::gen::strings;
use crate::kit::run::Ctx;
use atelier_core::builder::id::ShapeName;
use atelier_core::model::{Identifier, NamespaceID, ShapeID};
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

/// identifier = *"_" ALPHA *(ALPHA / DIGIT / "_"), all ASCII.
pub fn ref_identifier(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i] == b'_' {
        i += 1;
    }
    if i >= b.len() || !b[i].is_ascii_alphabetic() {
        return false;
    }
    b[i..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}
pub fn ref_namespace(s: &str) -> bool {
    s.split('.').all(ref_identifier)
}
/// (namespace, shape, member)
pub fn ref_shape_id(s: &str) -> Option<(&str, &str, Option<&str>)> {
    let (ns, rest) = s.split_once('#')?;
    let (n, m) = match rest.split_once('$') {
        Some((n, m)) => (n, Some(m)),
        None => (rest, None),
    };
    (ref_namespace(ns) && ref_identifier(n) && m.map(ref_identifier).unwrap_or(true)).then_some((ns, n, m))
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

fn check_string(s: &str) -> Result<&'static str, String> {
    let mut label = "rejected";
    // Identifier
    let want = ref_identifier(s);
    eq("Identifier::is_valid", Identifier::is_valid(s), want)?;
    match Identifier::from_str(s) {
        Ok(i) => {
            eq("Identifier accepted", true, want)?;
            eq("Identifier display", i.to_string(), s.to_string())?;
            label = "identifier";
        }
        Err(_) => eq("Identifier accepted", false, want)?,
    }
    // NamespaceID
    let want = ref_namespace(s);
    eq("NamespaceID::is_valid", NamespaceID::is_valid(s), want)?;
    match NamespaceID::from_str(s) {
        Ok(i) => {
            eq("NamespaceID accepted", true, want)?;
            eq("NamespaceID display", i.to_string(), s.to_string())?;
            eq(
                "NamespaceID::split",
                i.split().map(|x| x.to_string()).collect::<Vec<_>>(),
                s.split('.').map(|x| x.to_string()).collect::<Vec<_>>(),
            )?;
            if label == "rejected" {
                label = "namespace"
            }
        }
        Err(_) => eq("NamespaceID accepted", false, want)?,
    }
    // ShapeID
    let want = ref_shape_id(s);
    eq("ShapeID::is_valid", ShapeID::is_valid(s), want.is_some())?;
    match (ShapeID::from_str(s), want) {
        (Ok(id), Some((ns, n, m))) => {
            label = if m.is_some() { "member id" } else { "shape id" };
            eq("ShapeID display", id.to_string(), s.to_string())?;
            eq("namespace()", id.namespace().to_string(), ns.to_string())?;
            eq("shape_name()", id.shape_name().to_string(), n.to_string())?;
            eq(
                "member_name()",
                id.member_name().as_ref().map(|x| x.to_string()),
                m.map(|x| x.to_string()),
            )?;
            eq("is_member()", id.is_member(), m.is_some())?;
            let base = format!("{ns}#{n}");
            eq("shape_only()", id.shape_only().to_string(), base.clone())?;
            eq(
                "make_member()",
                id.make_member("mm_9".parse().unwrap()).to_string(),
                format!("{base}$mm_9"),
            )?;
            if m.is_none() {
                eq(
                    "make_shape()",
                    id.make_shape("Zz".parse().unwrap()).to_string(),
                    format!("{ns}#Zz"),
                )?;
            }
            let nsid: NamespaceID = ns.parse().map_err(|e| format!("{e}"))?;
            let name: Identifier = n.parse().map_err(|e| format!("{e}"))?;
            let via = match m {
                None => nsid.make_shape(name.clone()),
                Some(m) => nsid.make_member(name.clone(), m.parse().map_err(|e| format!("{e}"))?),
            };
            eq("made from parts", via.to_string(), s.to_string())?;
            eq("made from parts equals parsed", via == id, true)?;
            let v2 = ShapeID::new(nsid, name, m.map(|m| m.parse().unwrap()));
            eq("ShapeID::new", v2 == id && v2.to_string() == s, true)?;
            let v3 = match m {
                None => ShapeID::shape(ns, n),
                Some(m) => ShapeID::member(ns, n, m),
            };
            eq("ShapeID::shape/member", v3 == id && v3.to_string() == s, true)?;
            let v4 = ShapeID::new_unchecked(ns, n, m);
            eq("ShapeID::new_unchecked", v4 == id && v4.to_string() == s, true)?;
        }
        (Err(_), None) => {}
        (Ok(id), None) => return Err(format!("ShapeID accepted invalid text as {id:?}")),
        (Err(e), Some(_)) => return Err(format!("ShapeID rejected valid text: {e}")),
    }
    // ShapeName: qualified or local
    match (ShapeName::from_str(s), want, ref_identifier(s)) {
        (Ok(n), Some((ns, name, m)), _) => {
            eq("ShapeName::is_qualified", n.is_qualified(), true)?;
            eq("ShapeName display", n.to_string(), s.to_string())?;
            eq("ShapeName namespace", n.namespace().map(|x| x.to_string()), Some(ns.to_string()))?;
            eq("ShapeName shape_name", n.shape_name().to_string(), name.to_string())?;
            eq("ShapeName member_name", n.member_name().map(|x| x.to_string()), m.map(|x| x.to_string()))?;
        }
        (Ok(n), None, true) => {
            eq("ShapeName::is_local", n.is_local(), true)?;
            eq("ShapeName display", n.to_string(), s.to_string())?;
            eq("ShapeName namespace", n.namespace().is_none(), true)?;
            eq("ShapeName shape_name", n.shape_name().to_string(), s.to_string())?;
            eq("ShapeName member_name", n.member_name().is_none(), true)?;
        }
        (Err(_), None, false) => {}
        (r, q, l) => return Err(format!("ShapeName: got {r:?}, qualified={q:?} local={l}")),
    }
    Ok(label)
}

pub fn grammar(c: &mut Ctx) {
    c.rule = "every string over {a,Z,0,_,.,#,$,-,space,é} up to length 5 (6 thorough), every single ASCII/control/boundary code point in each position of a valid id, and every id assembled from a pool of identifier/namespace/member segments (incl. 70-character and 12-segment ones); non-trivial = at least one identifier type accepts it".into();
    c.level = "exploration";
    let n = if c.thorough { 6 } else { 5 };
    let mut inputs = strings(&["a", "Z", "0", "_", ".", "#", "$", "-", " ", "é"], n);
    // every code point class in every position of a fixed id
    let mut chars: Vec<char> = (0u32..=0x17f).filter_map(char::from_u32).collect();
    chars.extend(['\u{2028}', '\u{212a}', '\u{ff21}', '\u{661}', '\u{1d7ce}', '\u{10ffff}', '²', 'ª']);
    for base in ["a.b#C", "a.b#C$d", "ab", "_a1.b_2#C3_$d4"] {
        let cs: Vec<char> = base.chars().collect();
        for p in 0..=cs.len() {
            for ch in &chars {
                let mut t = cs.clone();
                t.insert(p, *ch);
                inputs.push(t.iter().collect());
                if p < cs.len() {
                    t.remove(p + 1);
                    inputs.push(t.iter().collect());
                }
            }
        }
    }
    let long = "L".repeat(70);
    let long2 = format!("__x{}", "9".repeat(40));
    let segs: Vec<&str> = vec!["a", "Bc", "_d", "__e", "f_", "g1", "_1", "1h", "", "_", "é", &long, &long2, "true", "use"];
    let mut nss: Vec<String> = segs.iter().map(|s| s.to_string()).collect();
    for a in &segs {
        for b in &segs {
            nss.push(format!("{a}.{b}"));
        }
    }
    for a in &segs[..5] {
        for b in &segs[..5] {
            for d in &segs[..8] {
                nss.push(format!("{a}.{b}.{d}"));
            }
        }
    }
    nss.push(vec!["n"; 12].join("."));
    nss.push(vec!["n"; 100].join("."));
    nss.push(format!("{}.", vec!["n"; 12].join(".")));
    for ns in &nss {
        for n in &segs {
            inputs.push(format!("{ns}#{n}"));
            for m in &segs {
                inputs.push(format!("{ns}#{n}${m}"));
            }
        }
        inputs.push(ns.clone());
    }
    for x in ["a#b#c", "a#b$c$d", "a$b#c", "a#b.c", "a#b$c.d", "#a", "a#", "a#$b", "a#b$", "a.b", "a..b#c", ".a#b", "a.#b", "a#b\n", "\na#b", "a#b$c\n", "a\n", "a#b\r\n", "a\u{0}#b", "a #b", "a# b", "a#b $c"] {
        inputs.push(x.to_string());
    }
    for s in inputs {
        let acc = ref_namespace(&s) || ref_shape_id(&s).is_some();
        c.case_o(&format!("{s:?}"), acc, || check_string(&s));
    }
    // relations between pairs of ids
    let pool: Vec<String> = {
        let mut v = vec![];
        for ns in ["a", "a.b", "ab", "a.b.c"] {
            for n in ["X", "Y", "XY"] {
                for m in [None, Some("p"), Some("q"), Some("X")] {
                    v.push(match m {
                        None => format!("{ns}#{n}"),
                        Some(m) => format!("{ns}#{n}${m}"),
                    });
                }
            }
        }
        v
    };
    for x in &pool {
        for y in &pool {
            c.case_o(&format!("pair {x} {y}"), true, || {
                let (a, b) = (ShapeID::from_str(x).map_err(|e| e.to_string())?, ShapeID::from_str(y).map_err(|e| e.to_string())?);
                let (rx, ry) = (ref_shape_id(x).unwrap(), ref_shape_id(y).unwrap());
                eq("equality", a == b, x == y)?;
                eq("is_in_same_namespace", a.is_in_same_namespace(&b), rx.0 == ry.0)?;
                let valid = rx.2.is_none() && ry.2.is_some() && rx.0 == ry.0 && rx.1 == ry.1;
                eq("is_valid_member", a.is_valid_member(&b), valid)?;
                Ok(if valid { "member-of pair" } else { "other pair" })
            });
        }
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Eq / Hash / Ord agreement on one triple of values of one type.
fn contract<T: Eq + Hash + Ord + Clone + std::fmt::Debug>(a: &T, b: &T, c: &T) -> Result<(), String> {
    use std::cmp::Ordering::*;
    if a != a {
        return Err(format!("{a:?} != itself"));
    }
    if (a == b) != (b == a) {
        return Err(format!("equality not symmetric: {a:?} {b:?}"));
    }
    if a == b && b == c && a != c {
        return Err(format!("equality not transitive: {a:?} {b:?} {c:?}"));
    }
    if a == b && hash(a) != hash(b) {
        return Err(format!("equal values hash differently: {a:?} {b:?}"));
    }
    if (a.cmp(b) == Equal) != (a == b) {
        return Err(format!("cmp says {:?} but == says {} for {a:?} {b:?}", a.cmp(b), a == b));
    }
    if a.partial_cmp(b) != Some(a.cmp(b)) {
        return Err(format!("partial_cmp and cmp disagree for {a:?} {b:?}"));
    }
    if a.cmp(b) != b.cmp(a).reverse() {
        return Err(format!("ordering not antisymmetric: {a:?} {b:?}"));
    }
    if a.cmp(b) != Greater && b.cmp(c) != Greater && a.cmp(c) == Greater {
        return Err(format!("ordering not transitive: {a:?} {b:?} {c:?}"));
    }
    // sets collapse exactly the equal ones
    let want = {
        let mut v: Vec<&T> = vec![];
        for x in [a, b, c] {
            if !v.contains(&x) {
                v.push(x);
            }
        }
        v.len()
    };
    let hs: HashSet<&T> = [a, b, c].into_iter().collect();
    if hs.len() != want {
        return Err(format!("hash set holds {} of {want} distinct values: {a:?} {b:?} {c:?}", hs.len()));
    }
    let bs: BTreeSet<&T> = [a, b, c].into_iter().collect();
    if bs.len() != want {
        return Err(format!("ordered set holds {} of {want} distinct values: {a:?} {b:?} {c:?}", bs.len()));
    }
    for x in [a, b, c] {
        if !hs.contains(&x.clone()) || !bs.contains(&x.clone()) {
            return Err(format!("set lost {x:?}"));
        }
    }
    Ok(())
}

pub fn equality(c: &mut Ctx) {
    c.rule = "every triple from pools of identifiers, namespaces, shape ids and shape names that differ in case, prefix, suffix, separator placement and member part; non-trivial = the three are not all the same text".into();
    let ids = ["a", "A", "b", "aB", "Ab", "AB", "ab", "_a", "a_", "a1", "longName", "LONGNAME", "longNamf"];
    let nss = ["a", "A", "a.b", "A.b", "a.B", "ab", "AB", "a.b.c", "b.a", "a._b"];
    let shapes = [
        "a#b", "A#b", "a#B", "A#B", "a#b$c", "a#b$C", "a#B$c", "A#B$C", "a.b#c", "a.B#c", "a.b#C", "ab#c", "a#bc", "b#a", "a#b$d", "a.b#c$d",
    ];
    let names = ["a", "A", "b", "a#b", "A#b", "a#B", "b#b", "a#b$c", "a#b$C", "B"];
    macro_rules! run {
        ($kind:literal, $pool:expr, $t:ty) => {
            for x in $pool.iter() {
                for y in $pool.iter() {
                    for z in $pool.iter() {
                        c.case(&format!("{} {x} {y} {z}", $kind), !(x == y && y == z), || {
                            let p = |s: &str| <$t>::from_str(s).map_err(|e| e.to_string());
                            contract_for(p(x)?, p(y)?, p(z)?)
                        });
                    }
                }
            }
        };
    }
    trait Contract: Sized {
        fn go(a: &Self, b: &Self, c: &Self) -> Result<(), String>;
    }
    macro_rules! full {
        ($t:ty) => {
            impl Contract for $t {
                fn go(a: &Self, b: &Self, c: &Self) -> Result<(), String> {
                    contract(a, b, c)
                }
            }
        };
    }
    full!(Identifier);
    full!(NamespaceID);
    full!(ShapeID);
    impl Contract for ShapeName {
        fn go(a: &Self, b: &Self, c: &Self) -> Result<(), String> {
            if a == b && hash(a) != hash(b) {
                return Err(format!("equal values hash differently: {a:?} {b:?}"));
            }
            if (a == b) != (b == a) || (a == b && b == c && a != c) {
                return Err("equality is not an equivalence".into());
            }
            let mut v: Vec<&Self> = vec![];
            for x in [a, b, c] {
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            let hs: HashSet<&Self> = [a, b, c].into_iter().collect();
            if hs.len() != v.len() {
                return Err(format!("hash set holds {} of {} distinct values", hs.len(), v.len()));
            }
            Ok(())
        }
    }
    fn contract_for<T: Contract>(a: T, b: T, c: T) -> Result<(), String> {
        T::go(&a, &b, &c)
    }
    run!("identifier", ids, Identifier);
    run!("namespace", nss, NamespaceID);
    run!("shape id", shapes, ShapeID);
    run!("shape name", names, ShapeName);
    // what equality means: texts that differ other than in letter case are different
    let mut all: Vec<&str> = shapes.to_vec();
    all.extend(["a#b_", "a#_b", "a_#b", "a.b.c#d", "a.bc#d", "ab.c#d", "a#b$cd", "a#bc$d", "K#a", "k#a"]);
    for x in &all {
        for y in &all {
            c.case(&format!("meaning {x} {y}"), x != y, || {
                let (a, b) = (ShapeID::from_str(x).map_err(|e| e.to_string())?, ShapeID::from_str(y).map_err(|e| e.to_string())?);
                if (a == b) != x.eq_ignore_ascii_case(y) {
                    return Err(format!("{x} == {y} is {}", a == b));
                }
                Ok(())
            });
        }
    }
}
