//! Explicit-state breadth-first search of a real object driven in lock step with a reference.
use super::run::{guard, Ctx};
use std::collections::HashSet;

pub struct OpDef<I, R> {
    pub name: String,
    /// Apply to both; compare anything the call returns.
    pub f: Box<dyn Fn(&mut I, &mut R) -> Result<(), String>>,
}
pub fn op<I, R>(name: impl Into<String>, f: impl Fn(&mut I, &mut R) -> Result<(), String> + 'static) -> OpDef<I, R> {
    OpDef { name: name.into(), f: Box::new(f) }
}

/// Every history of `ops` up to `depth`, states merged when the reference states are equal (the
/// observation function `check` compares everything the property talks about on every transition).
pub fn explore<I: Clone, R: Clone + std::hash::Hash + Eq>(
    c: &mut Ctx,
    name: &str,
    init: (I, R),
    ops: &[OpDef<I, R>],
    depth: usize,
    check: impl Fn(&I, &R) -> Result<(), String>,
) {
    if let Some(o) = &c.only {
        if !o.starts_with(&format!("{name}:")) {
            return;
        }
    } else if !c.mine(name) {
        return;
    }
    c.mark(&format!("{name}: (initial)"));
    let mut seen: HashSet<R> = HashSet::new();
    match guard(|| check(&init.0, &init.1)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) | Err(e) => {
            c.fail(&format!("{name}: (initial)"), e);
            return;
        }
    }
    long(c, name, &init, ops, &check);
    seen.insert(init.1.clone());
    let mut frontier = vec![(init.0, init.1, String::new())];
    c.states += 1;
    for d in 1..=depth {
        let mut next = vec![];
        for (i, r, h) in &frontier {
            for o in ops {
                let hist = if h.is_empty() { o.name.clone() } else { format!("{h}; {}", o.name) };
                let full = format!("{name}: {hist}");
                c.mark(&full);
                c.transitions += 1;
                c.traces += 1;
                c.evaluations += 1;
                c.nontrivial.insert(super::run::h64(&full));
                if c.samples.len() < 12 && c.transitions.is_power_of_two() {
                    c.samples.push(full.clone());
                }
                let (mut i2, mut r2) = (i.clone(), r.clone());
                let res = guard(|| {
                    (o.f)(&mut i2, &mut r2)?;
                    check(&i2, &r2)
                });
                match res {
                    Ok(Ok(())) => {
                        c.note(if r2 == *r { "no change" } else { "changed" });
                        if !seen.contains(&r2) {
                            seen.insert(r2.clone());
                            c.states += 1;
                            if d < depth {
                                next.push((i2, r2, hist));
                            }
                        }
                    }
                    Ok(Err(e)) | Err(e) => c.fail(&full, e),
                }
            }
        }
        frontier = next;
        if frontier.is_empty() {
            break;
        }
    }
}

/// Long histories: every two calls in turn (twenty times), and every walk around the table of calls with
/// a fixed stride.
fn long<I: Clone, R: Clone + std::hash::Hash + Eq>(c: &mut Ctx, name: &str, init: &(I, R), ops: &[OpDef<I, R>], check: &impl Fn(&I, &R) -> Result<(), String>) {
    let k = ops.len();
    let mut walks: Vec<(String, Vec<usize>)> = vec![];
    for i in 0..k {
        for j in i..k {
            walks.push((format!("20 x ({}; {})", ops[i].name, ops[j].name), (0..40).map(|n| if n % 2 == 0 { i } else { j }).collect()));
        }
    }
    for stride in 1..k {
        for start in [0, k / 3, k / 2] {
            walks.push((format!("120 calls from {start} by {stride}"), (0..120).map(|n| (start + n * stride + n / k) % k).collect()));
        }
    }
    for (w, seq) in walks {
        let full = format!("{name}: {w}");
        if c.only.as_ref().map(|o| *o != full).unwrap_or(false) {
            continue;
        }
        c.mark(&full);
        c.traces += 1;
        c.evaluations += 1;
        c.transitions += seq.len() as u64;
        c.nontrivial.insert(super::run::h64(&full));
        let r = guard(|| {
            let (mut i, mut r) = init.clone();
            for (n, o) in seq.iter().enumerate() {
                (ops[*o].f)(&mut i, &mut r).and_then(|_| check(&i, &r)).map_err(|e| format!("call {n}, {}: {e}", ops[*o].name))?;
            }
            Ok(())
        });
        if let Ok(Err(e)) | Err(e) = r {
            c.fail(&full, e);
        }
    }
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}
