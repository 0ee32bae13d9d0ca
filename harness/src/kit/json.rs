//! A small strict JSON reader and printer of the harness's own (RFC 8259), keeping duplicate keys.
use super::spec::{F, V};
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// the source text of the number
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    pub depth: usize,
    pub max_depth: usize,
}

pub fn parse(s: &[u8]) -> Result<(J, usize), ()> {
    let mut p = P { s, i: 0, depth: 0, max_depth: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != s.len() {
        return Err(());
    }
    Ok((v, p.max_depth))
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn eat(&mut self, b: u8) -> Result<(), ()> {
        if self.s.get(self.i) == Some(&b) {
            self.i += 1;
            Ok(())
        } else {
            Err(())
        }
    }
    fn word(&mut self, w: &str, v: J) -> Result<J, ()> {
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            Err(())
        }
    }
    fn value(&mut self) -> Result<J, ()> {
        match self.s.get(self.i) {
            Some(b'n') => self.word("null", J::Null),
            Some(b't') => self.word("true", J::Bool(true)),
            Some(b'f') => self.word("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.down()?;
                let mut v = vec![];
                self.ws();
                if self.eat(b']').is_err() {
                    loop {
                        self.ws();
                        v.push(self.value()?);
                        self.ws();
                        if self.eat(b']').is_ok() {
                            break;
                        }
                        self.eat(b',')?;
                    }
                }
                self.depth -= 1;
                Ok(J::Arr(v))
            }
            Some(b'{') => {
                self.down()?;
                let mut v = vec![];
                self.ws();
                if self.eat(b'}').is_err() {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        self.eat(b':')?;
                        self.ws();
                        v.push((k, self.value()?));
                        self.ws();
                        if self.eat(b'}').is_ok() {
                            break;
                        }
                        self.eat(b',')?;
                    }
                }
                self.depth -= 1;
                Ok(J::Obj(v))
            }
            Some(b'-' | b'0'..=b'9') => self.number(),
            _ => Err(()),
        }
    }
    fn down(&mut self) -> Result<(), ()> {
        self.i += 1;
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        if self.depth > 1000 {
            return Err(());
        }
        Ok(())
    }
    fn digits(&mut self) -> Result<(), ()> {
        let a = self.i;
        while matches!(self.s.get(self.i), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        if self.i == a {
            Err(())
        } else {
            Ok(())
        }
    }
    fn number(&mut self) -> Result<J, ()> {
        let a = self.i;
        let _ = self.eat(b'-');
        if self.eat(b'0').is_err() {
            self.digits()?;
        }
        if self.eat(b'.').is_ok() {
            self.digits()?;
        }
        if self.eat(b'e').is_ok() || self.eat(b'E').is_ok() {
            if self.eat(b'+').is_err() {
                let _ = self.eat(b'-');
            }
            self.digits()?;
        }
        Ok(J::Num(std::str::from_utf8(&self.s[a..self.i]).unwrap().to_string()))
    }
    fn hex4(&mut self) -> Result<u32, ()> {
        let t = self.s.get(self.i..self.i + 4).ok_or(())?;
        if !t.iter().all(u8::is_ascii_hexdigit) {
            return Err(());
        }
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(t).map_err(|_| ())?, 16).map_err(|_| ())
    }
    fn string(&mut self) -> Result<String, ()> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = vec![];
        loop {
            let b = *self.s.get(self.i).ok_or(())?;
            self.i += 1;
            match b {
                b'"' => break,
                b'\\' => {
                    let e = *self.s.get(self.i).ok_or(())?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let h = self.hex4()?;
                            if (0xd800..0xdc00).contains(&h) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return Err(());
                                }
                                char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00)).ok_or(())?
                            } else {
                                char::from_u32(h).ok_or(())?
                            }
                        }
                        _ => return Err(()),
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                0..=0x1f => return Err(()),
                b => out.push(b),
            }
        }
        String::from_utf8(out).map_err(|_| ())
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Compact,
    /// wide layout, keys in reverse order
    Wide,
    /// every character of a string escaped
    Escaped,
}

pub fn quote(s: &str, st: Style, out: &mut String) {
    out.push('"');
    for ch in s.chars() {
        if st == Style::Escaped {
            let mut b = [0u16; 2];
            for u in ch.encode_utf16(&mut b) {
                let _ = write!(out, "\\u{u:04x}");
            }
            continue;
        }
        match ch {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '/' if st == Style::Wide => out.push_str("\\/"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04X}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn print(j: &J, st: Style) -> String {
    fn go(j: &J, st: Style, ind: usize, o: &mut String) {
        let nl = |o: &mut String, ind: usize| {
            if st == Style::Wide {
                o.push_str("\r\n");
                for _ in 0..ind {
                    o.push('\t');
                }
            }
        };
        match j {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => quote(s, st, o),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, ind + 1);
                    go(x, st, ind + 1, o);
                }
                nl(o, ind);
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                let mut m: Vec<_> = m.iter().collect();
                if st == Style::Wide {
                    m.reverse();
                }
                for (i, (k, x)) in m.into_iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, ind + 1);
                    quote(k, st, o);
                    o.push_str(if st == Style::Wide { " : " } else { ":" });
                    go(x, st, ind + 1, o);
                }
                nl(o, ind);
                o.push('}');
            }
        }
    }
    let mut o = String::new();
    go(j, st, 0, &mut o);
    o
}

pub fn js(s: &str) -> J {
    J::Str(s.to_string())
}
pub fn ob(kv: Vec<(&str, J)>) -> J {
    J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn of_v(v: &V) -> J {
    match v {
        V::None => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::Int(i) => J::Num(i.to_string()),
        V::Float(f) => J::Num(format!("{:?}", f.0)),
        V::Str(s) => J::Str(s.clone()),
        V::Arr(a) => J::Arr(a.iter().map(of_v).collect()),
        V::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), of_v(v))).collect()),
    }
}
/// The value a JSON datum stands for: numbers written with a fraction or exponent, and integers
/// outside 64 bits, are floats.
pub fn to_v(j: &J) -> Result<V, ()> {
    Ok(match j {
        J::Null => V::None,
        J::Bool(b) => V::Bool(*b),
        J::Num(n) => match n.parse::<i64>() {
            Ok(i) if n != "-0" => V::Int(i),
            _ => {
                let f: f64 = n.parse().map_err(|_| ())?;
                if !f.is_finite() {
                    return Err(());
                }
                V::Float(F(f))
            }
        },
        J::Str(s) => V::Str(s.clone()),
        J::Arr(a) => V::Arr(a.iter().map(to_v).collect::<Result<_, _>>()?),
        J::Obj(o) => {
            let mut m = BTreeMap::new();
            for (k, v) in o {
                m.insert(k.clone(), to_v(v)?);
            }
            V::Obj(m)
        }
    })
}
/// Equality of JSON data: objects as maps, numbers as the values they stand for.
pub fn canon(j: &J) -> J {
    match j {
        J::Num(n) => match to_v(j) {
            Ok(V::Int(i)) => J::Num(i.to_string()),
            Ok(V::Float(f)) => J::Num(format!("{:?}f", f.0)),
            _ => J::Num(n.clone()),
        },
        J::Arr(a) => J::Arr(a.iter().map(canon).collect()),
        J::Obj(o) => {
            let mut v: Vec<_> = o.iter().map(|(k, v)| (k.clone(), canon(v))).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            J::Obj(v)
        }
        x => x.clone(),
    }
}
pub fn dup_keys(j: &J) -> bool {
    match j {
        J::Arr(a) => a.iter().any(dup_keys),
        J::Obj(o) => {
            let mut ks: Vec<&String> = o.iter().map(|x| &x.0).collect();
            ks.sort();
            ks.windows(2).any(|w| w[0] == w[1]) || o.iter().any(|x| dup_keys(&x.1))
        }
        _ => false,
    }
}
