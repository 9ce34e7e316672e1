//! Values of the language as the oracle sees them, and the reading of the library's values.

use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Int(i64),
    Float(f64),
    Bool(bool),
    Str(String),
    Arr(Vec<V>),
    Map(BTreeMap<String, V>),
}

/// Exact identity: floats by bits, all NaNs alike.
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Null, V::Null) => true,
        (V::Int(a), V::Int(b)) => a == b,
        (V::Float(a), V::Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Str(a), V::Str(b)) => a == b,
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (V::Map(a), V::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((ka, a), (kb, b))| ka == kb && same(a, b)),
        _ => false,
    }
}

/// Equality of the language: type strict, IEEE for floats.
pub fn lang_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Null, V::Null) => true,
        (V::Int(a), V::Int(b)) => a == b,
        (V::Float(a), V::Float(b)) => a == b,
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Str(a), V::Str(b)) => a == b,
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| lang_eq(a, b)),
        (V::Map(a), V::Map(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((ka, a), (kb, b))| ka == kb && lang_eq(a, b))
        }
        _ => false,
    }
}

impl V {
    pub fn kind(&self) -> &'static str {
        match self {
            V::Null => "null",
            V::Int(_) => "int",
            V::Float(_) => "float",
            V::Bool(_) => "bool",
            V::Str(_) => "string",
            V::Arr(_) => "array",
            V::Map(_) => "map",
        }
    }

    /// Display text of the language; None when it depends on the order of a map's keys.
    pub fn text(&self) -> Option<String> {
        Some(match self {
            V::Null => "null".to_string(),
            V::Int(i) => i.to_string(),
            V::Float(f) => format!("{}", f),
            V::Bool(b) => b.to_string(),
            V::Str(s) => s.clone(),
            V::Arr(_) | V::Map(_) => self.debug()?,
        })
    }

    fn debug(&self) -> Option<String> {
        Some(match self {
            V::Null => "Null".to_string(),
            V::Int(i) => format!("Integer({})", i),
            V::Float(f) => format!("Float({:?})", f),
            V::Bool(b) => format!("Boolean({})", b),
            V::Str(s) => format!("String({:?})", s),
            V::Arr(items) => match self_nested(items) {
                Some(s) => s,
                None => return None,
            },
            V::Map(m) => {
                if m.len() > 1 {
                    return None;
                }
                match m.iter().next() {
                    None => "{}".to_string(),
                    Some((k, v)) => format!("{{{:?}: {}}}", k, v.debug_inner()?),
                }
            }
        })
    }

    fn debug_inner(&self) -> Option<String> {
        Some(match self {
            V::Arr(_) => format!("Array({})", self.debug()?),
            V::Map(_) => format!("Map({})", self.debug()?),
            _ => self.debug()?,
        })
    }
}

fn self_nested(items: &[V]) -> Option<String> {
    let mut parts = Vec::new();
    for i in items {
        parts.push(i.debug_inner()?);
    }
    Some(format!("[{}]", parts.join(", ")))
}

/// Reads the debug form of the library's value.
pub fn read_value(debug: &str) -> Result<V, String> {
    let mut p = P {
        s: debug.as_bytes(),
        text: debug,
        i: 0,
    };
    let v = p.value()?;
    if p.i != p.s.len() {
        return Err(format!("trailing text at {} of {}", p.i, debug));
    }
    Ok(v)
}

pub fn of<T: std::fmt::Debug>(value: &T) -> V {
    let debug = format!("{:?}", value);
    read_value(&debug).unwrap_or_else(|e| panic!("unreadable value {}: {}", debug, e))
}

struct P<'a> {
    s: &'a [u8],
    text: &'a str,
    i: usize,
}

impl P<'_> {
    fn eat(&mut self, t: &str) -> bool {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> Result<(), String> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {} at {}", t, self.i))
        }
    }
    fn until_paren(&mut self) -> Result<String, String> {
        let start = self.i;
        while self.i < self.s.len() && self.s[self.i] != b')' {
            self.i += 1;
        }
        let t = self.text[start..self.i].to_string();
        self.need(")")?;
        Ok(t)
    }
    fn value(&mut self) -> Result<V, String> {
        if self.eat("Null") {
            Ok(V::Null)
        } else if self.eat("Integer(") {
            let t = self.until_paren()?;
            t.parse().map(V::Int).map_err(|e| format!("{}: {}", t, e))
        } else if self.eat("Float(") {
            let t = self.until_paren()?;
            t.parse().map(V::Float).map_err(|e| format!("{}: {}", t, e))
        } else if self.eat("Boolean(") {
            let t = self.until_paren()?;
            t.parse().map(V::Bool).map_err(|e| format!("{}: {}", t, e))
        } else if self.eat("String(") {
            let s = self.string()?;
            self.need(")")?;
            Ok(V::Str(s))
        } else if self.eat("Array([") {
            let mut items = Vec::new();
            while !self.eat("])") {
                if !items.is_empty() {
                    self.need(", ")?;
                }
                items.push(self.value()?);
            }
            Ok(V::Arr(items))
        } else if self.eat("Map({") {
            let mut map = BTreeMap::new();
            let mut first = true;
            while !self.eat("})") {
                if !first {
                    self.need(", ")?;
                }
                first = false;
                let k = self.string()?;
                self.need(": ")?;
                let v = self.value()?;
                if map.insert(k.clone(), v).is_some() {
                    return Err(format!("duplicate key {:?}", k));
                }
            }
            Ok(V::Map(map))
        } else {
            Err(format!("unknown value at {}", self.i))
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.need("\"")?;
        let mut out = String::new();
        loop {
            let rest = &self.text[self.i..];
            let c = rest.chars().next().ok_or("unterminated string")?;
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let c = self.text[self.i..].chars().next().ok_or("unterminated escape")?;
                    self.i += c.len_utf8();
                    match c {
                        'n' => out.push('\n'),
                        'r' => out.push('\r'),
                        't' => out.push('\t'),
                        '0' => out.push('\0'),
                        '\\' | '"' | '\'' => out.push(c),
                        'u' => {
                            self.need("{")?;
                            let start = self.i;
                            while self.i < self.s.len() && self.s[self.i] != b'}' {
                                self.i += 1;
                            }
                            let n = u32::from_str_radix(&self.text[start..self.i], 16).map_err(|e| e.to_string())?;
                            self.need("}")?;
                            out.push(char::from_u32(n).ok_or("bad char")?);
                        }
                        c => return Err(format!("escape {}", c)),
                    }
                }
                c => out.push(c),
            }
        }
    }
}
