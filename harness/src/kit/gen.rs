//! Bounded-exhaustive generators shared by the properties.
use super::spec::*;
use std::collections::BTreeMap;

/// All strings over `alphabet` of length 0..=n, shortest first.
pub fn strings(alphabet: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for p in &last {
            for a in alphabet {
                next.push(format!("{p}{a}"));
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

pub fn s(x: &str) -> V {
    V::Str(x.to_string())
}
pub fn obj(kv: &[(&str, V)]) -> V {
    V::Obj(kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
pub fn mem(name: &str, target: &str) -> Mem {
    Mem { name: name.into(), target: target.into(), traits: Traits::new() }
}
pub fn traits(kv: &[(&str, Option<V>)]) -> Traits {
    kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}
pub fn st(ms: &[Mem]) -> BTreeMap<String, Mem> {
    ms.iter().map(|m| (m.name.clone(), m.clone())).collect()
}

/// Every sequence of up to `n` numbers below `k`.
pub fn sequences(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut last = 0;
    for _ in 0..n {
        let end = out.len();
        for i in last..end {
            for x in 0..k {
                let mut w = out[i].clone();
                w.push(x);
                out.push(w);
            }
        }
        last = end;
    }
    out
}
