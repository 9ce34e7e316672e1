//! Programs: a tree, its layouts as text, and a reference interpreter written from the language's description.

use crate::model::{lang_eq, V};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    Or,
    And,
    BitOr,
    BitXor,
    BitAnd,
    Eq,
    Ne,
    Lt,
    Gt,
    Le,
    Ge,
    Shl,
    Shr,
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

pub const OPS: [Op; 18] = [
    Op::Or,
    Op::And,
    Op::BitOr,
    Op::BitXor,
    Op::BitAnd,
    Op::Eq,
    Op::Ne,
    Op::Lt,
    Op::Gt,
    Op::Le,
    Op::Ge,
    Op::Shl,
    Op::Shr,
    Op::Add,
    Op::Sub,
    Op::Mul,
    Op::Div,
    Op::Rem,
];

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Or => "||",
            Op::And => "&&",
            Op::BitOr => "|",
            Op::BitXor => "^",
            Op::BitAnd => "&",
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Gt => ">",
            Op::Le => "<=",
            Op::Ge => ">=",
            Op::Shl => "<<",
            Op::Shr => ">>",
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Rem => "%",
        }
    }
    pub fn level(self) -> u8 {
        match self {
            Op::Or => 1,
            Op::And => 2,
            Op::BitOr => 3,
            Op::BitXor => 4,
            Op::BitAnd => 5,
            Op::Eq | Op::Ne => 6,
            Op::Lt | Op::Gt | Op::Le | Op::Ge => 7,
            Op::Shl | Op::Shr => 8,
            Op::Add | Op::Sub => 9,
            Op::Mul | Op::Div | Op::Rem => 10,
        }
    }
    pub fn is_compare(self) -> bool {
        matches!(self, Op::Eq | Op::Ne | Op::Lt | Op::Gt | Op::Le | Op::Ge)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum E {
    /// a literal, so not negative
    Int(i64),
    /// the text of a literal
    Float(String),
    Bool(bool),
    Str(String),
    Var(String),
    Arr(Vec<E>),
    Map(Vec<(E, E)>),
    Index(Box<E>, Box<E>),
    Field(Box<E>, String),
    Let(String, Box<E>),
    Neg(Box<E>),
    Not(Box<E>),
    Bin(Op, Box<E>, Box<E>),
    If(Box<E>, Vec<E>, Vec<E>),
    Call(String, Vec<E>),
}

impl E {
    pub fn level(&self) -> u8 {
        match self {
            E::Let(..) => 0,
            E::Bin(op, ..) => op.level(),
            // only the smallest integer is written with its sign
            E::Neg(_) | E::Not(_) | E::Int(i64::MIN..=-1) => 11,
            E::Call(..) | E::Index(..) | E::Field(..) => 13,
            E::If(..) => 12,
            _ => 14,
        }
    }
    pub fn size(&self) -> usize {
        1 + match self {
            E::Arr(i) => i.iter().map(E::size).sum(),
            E::Call(_, i) => i.iter().map(E::size).sum(),
            E::Map(p) => p.iter().map(|(k, v)| k.size() + v.size()).sum(),
            E::Index(a, b) | E::Bin(_, a, b) => a.size() + b.size(),
            E::Field(a, _) | E::Let(_, a) | E::Neg(a) | E::Not(a) => a.size(),
            E::If(c, a, b) => c.size() + a.iter().chain(b).map(E::size).sum::<usize>(),
            _ => 0usize,
        }
    }
    pub fn ops(&self, out: &mut Vec<Op>) {
        match self {
            E::Bin(op, a, b) => {
                out.push(*op);
                a.ops(out);
                b.ops(out);
            }
            E::Arr(i) | E::Call(_, i) => i.iter().for_each(|e| e.ops(out)),
            E::Map(p) => p.iter().for_each(|(k, v)| {
                k.ops(out);
                v.ops(out)
            }),
            E::Index(a, b) => {
                a.ops(out);
                b.ops(out)
            }
            E::Field(a, _) | E::Let(_, a) | E::Neg(a) | E::Not(a) => a.ops(out),
            E::If(c, a, b) => {
                c.ops(out);
                a.iter().chain(b).for_each(|e| e.ops(out))
            }
            _ => {}
        }
    }
}

// ---- layout ----

/// Decides layout questions from a list of bytes (all zero: the plainest layout).
pub struct Layout<'a> {
    bytes: &'a [u8],
    i: usize,
}

impl<'a> Layout<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        Layout { bytes, i: 0 }
    }
    fn next(&mut self) -> u8 {
        if self.bytes.is_empty() {
            return 0;
        }
        let b = self.bytes[self.i % self.bytes.len()];
        // the same bytes give other decisions on a further round
        let round = (self.i / self.bytes.len()) as u8;
        self.i += 1;
        if b == 0 {
            0
        } else {
            b.wrapping_add(round.wrapping_mul(37))
        }
    }
    fn one_in(&mut self, n: u8) -> bool {
        let b = self.next();
        b != 0 && b % n == 0
    }
}

pub struct Printer<'a> {
    pub tokens: Vec<String>,
    layout: Layout<'a>,
    /// redundant parentheses left to spend
    pub parens: usize,
}

impl<'a> Printer<'a> {
    pub fn new(layout: &'a [u8]) -> Self {
        Printer {
            tokens: Vec::new(),
            layout: Layout::new(layout),
            parens: 12,
        }
    }
    fn t(&mut self, s: impl Into<String>) {
        self.tokens.push(s.into())
    }
    fn maybe_paren(&mut self, e: &E, needed: bool) {
        let extra = !needed && self.parens > 0 && self.layout.one_in(7);
        if needed || extra {
            self.parens -= usize::from(extra);
            self.t("(");
            self.expr(e);
            self.t(")");
        } else {
            self.bare(e);
        }
    }
    /// a comparison that is not put in parentheses itself
    pub fn comparison(&mut self, op: Op, a: &E, b: &E) {
        self.operand(a, op.level());
        self.t(op.text());
        self.operand(b, op.level() + 1);
    }
    /// a place where any expression may stand
    pub fn expr(&mut self, e: &E) {
        self.maybe_paren(e, false)
    }
    fn operand(&mut self, e: &E, min: u8) {
        self.maybe_paren(e, e.level() < min)
    }
    fn list(&mut self, items: &[E]) {
        for (i, e) in items.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.expr(e);
        }
        if !items.is_empty() && self.layout.one_in(9) {
            self.t(",");
        }
    }
    fn bare(&mut self, e: &E) {
        match e {
            E::Int(i) => self.t(i.to_string()),
            E::Float(f) => self.t(f.clone()),
            E::Bool(b) => self.t(b.to_string()),
            E::Str(s) => self.t(format!("\"{}\"", s)),
            E::Var(n) => self.t(n.clone()),
            E::Arr(items) => {
                self.t("[");
                self.list(items);
                self.t("]");
            }
            E::Map(pairs) => {
                self.t("{");
                for (i, (k, v)) in pairs.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.expr(k);
                    self.t(":");
                    self.expr(v);
                }
                if !pairs.is_empty() && self.layout.one_in(9) {
                    self.t(",");
                }
                self.t("}");
            }
            E::Index(a, i) => {
                self.operand(a, 13);
                self.t("[");
                self.expr(i);
                self.t("]");
            }
            E::Field(a, n) => {
                self.operand(a, 13);
                self.t(".");
                self.t(n.clone());
            }
            E::Let(n, v) => {
                self.t("let");
                self.t(n.clone());
                self.t("=");
                self.expr(v);
            }
            E::Neg(a) => {
                self.t("-");
                self.operand(a, 11);
            }
            E::Not(a) => {
                self.t("!");
                self.operand(a, 11);
            }
            E::Bin(op, a, b) => {
                self.operand(a, op.level());
                self.t(op.text());
                self.operand(b, op.level() + 1);
            }
            E::If(c, a, b) => {
                self.t("if");
                self.t("(");
                self.expr(c);
                self.t(")");
                self.t("{");
                self.block(a);
                self.t("}");
                if !b.is_empty() {
                    self.t("else");
                    self.t("{");
                    self.block(b);
                    self.t("}");
                }
            }
            E::Call(n, args) => {
                self.t(n.clone());
                self.t("(");
                self.list(args);
                self.t(")");
            }
        }
    }
    pub fn block(&mut self, statements: &[E]) {
        for (i, e) in statements.iter().enumerate() {
            let at = self.tokens.len();
            self.expr(e);
            // what the statement starts with decides whether the one before must be closed
            if i > 0 {
                let risky = matches!(self.tokens[at].as_str(), "(" | "[" | "-" | "!");
                if risky || !self.layout.one_in(2) {
                    self.tokens.insert(at, ";".to_string());
                }
            }
        }
        if !statements.is_empty() && self.layout.one_in(2) {
            self.t(";");
        }
    }
    /// Joins the tokens, with blanks where they are needed and elsewhere as the layout has it.
    pub fn join(&mut self) -> String {
        const BLANKS: [&str; 8] = ["", " ", " ", "  ", "\n", "\t", "\r\n", " \n  "];
        let tokens = std::mem::take(&mut self.tokens);
        let mut out = String::new();
        for (i, t) in tokens.iter().enumerate() {
            if i > 0 {
                let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.';
                let last = out.chars().last().unwrap();
                let first = t.chars().next().unwrap();
                let sticky = "=!<>|&";
                let needed = (word(last) && word(first)) || (sticky.contains(last) && sticky.contains(first));
                let b = self.layout.next();
                let mut blank = if b == 0 { " " } else { BLANKS[(b % 8) as usize] };
                if needed && blank.is_empty() {
                    blank = " ";
                }
                out.push_str(blank);
            }
            out.push_str(t);
        }
        out
    }
}

pub fn program_text(statements: &[E], layout: &[u8]) -> String {
    let mut p = Printer::new(layout);
    p.block(statements);
    p.join()
}

pub fn plain(e: &E) -> String {
    program_text(std::slice::from_ref(e), &[])
}

// ---- reference interpreter ----

pub type Vars = BTreeMap<String, V>;

#[derive(Default)]
pub struct Machine {
    pub vars: Vars,
    pub out: String,
    /// a result that cannot be predicted (text of a map with several keys) was needed
    pub unpredictable: bool,
    pub statements: u64,
}

/// The error side carries no message: messages are not specified.
pub type Res = Result<V, ()>;

pub fn truthy(v: &V) -> bool {
    !matches!(v, V::Bool(false) | V::Null)
}

impl Machine {
    pub fn block(&mut self, statements: &[E]) -> Res {
        let mut last = V::Null;
        for e in statements {
            self.statements += 1;
            last = self.eval(e)?;
        }
        Ok(last)
    }
    fn text(&mut self, v: &V) -> String {
        match v.text() {
            Some(t) => t,
            None => {
                self.unpredictable = true;
                String::new()
            }
        }
    }
    fn all(&mut self, items: &[E]) -> Result<Vec<V>, ()> {
        let mut out = Vec::new();
        for e in items {
            out.push(self.eval(e)?);
        }
        Ok(out)
    }
    pub fn eval(&mut self, e: &E) -> Res {
        match e {
            E::Int(i) => Ok(V::Int(*i)),
            E::Float(t) => Ok(V::Float(t.parse().expect("float literal"))),
            E::Bool(b) => Ok(V::Bool(*b)),
            E::Str(s) => Ok(V::Str(s.clone())),
            E::Var(n) => self.vars.get(n).cloned().ok_or(()),
            E::Arr(items) => Ok(V::Arr(self.all(items)?)),
            E::Map(pairs) => {
                let mut m = BTreeMap::new();
                for (k, v) in pairs {
                    let k = self.eval(k)?;
                    let k = self.text(&k);
                    let v = self.eval(v)?;
                    m.insert(k, v);
                }
                Ok(V::Map(m))
            }
            E::Index(a, i) => {
                let a = self.eval(a)?;
                let i = self.eval(i)?;
                match a {
                    V::Arr(items) => match i {
                        V::Int(i) if i >= 0 && (i as u64) < items.len() as u64 => Ok(items[i as usize].clone()),
                        V::Int(_) => Ok(V::Null),
                        _ => Err(()),
                    },
                    V::Map(m) => {
                        let k = self.text(&i);
                        Ok(m.get(&k).cloned().unwrap_or(V::Null))
                    }
                    _ => Err(()),
                }
            }
            E::Field(a, n) => match self.eval(a)? {
                V::Map(m) => Ok(m.get(n).cloned().unwrap_or(V::Null)),
                _ => Err(()),
            },
            E::Let(n, v) => {
                let v = self.eval(v)?;
                self.vars.insert(n.clone(), v.clone());
                Ok(v)
            }
            E::Neg(a) => match self.eval(a)? {
                V::Int(i) if i == i64::MIN => Err(()),
                V::Int(i) => Ok(V::Int(-i)),
                V::Float(f) => Ok(V::Float(-f)),
                _ => Err(()),
            },
            E::Not(a) => Ok(match self.eval(a)? {
                V::Bool(b) => V::Bool(!b),
                V::Null => V::Bool(true),
                V::Int(i) => V::Int(-1 - i),
                _ => V::Bool(false),
            }),
            E::Bin(Op::Or, a, b) => {
                let a = self.eval(a)?;
                if truthy(&a) {
                    Ok(a)
                } else {
                    self.eval(b)
                }
            }
            E::Bin(Op::And, a, b) => {
                let a = self.eval(a)?;
                if truthy(&a) {
                    self.eval(b)
                } else {
                    Ok(a)
                }
            }
            E::Bin(op, a, b) => {
                let a = self.eval(a)?;
                let b = self.eval(b)?;
                if let (Op::Rem, V::Int(i64::MIN), V::Int(-1)) = (*op, &a, &b) {
                    // 0 is representable, the division it belongs to is not: either answer will do
                    self.unpredictable = true;
                }
                binary(*op, &a, &b)
            }
            E::If(c, a, b) => {
                let c = self.eval(c)?;
                if truthy(&c) {
                    self.block(a)
                } else {
                    self.block(b)
                }
            }
            E::Call(n, args) => {
                let args = self.all(args)?;
                self.call(n, args)
            }
        }
    }
    pub fn call(&mut self, name: &str, args: Vec<V>) -> Res {
        match name {
            "format" => self.format(&args),
            "print" => {
                if let V::Str(s) = self.format(&args)? {
                    self.out.push_str(&s);
                }
                Ok(V::Null)
            }
            "println" => {
                if let V::Str(s) = self.format(&args)? {
                    self.out.push_str(&s);
                    self.out.push('\n');
                }
                Ok(V::Null)
            }
            "length" => match &args[..] {
                [V::Str(s)] => Ok(V::Int(s.as_bytes().len() as i64)),
                [V::Arr(a)] => Ok(V::Int(a.len() as i64)),
                [V::Map(m)] => Ok(V::Int(m.len() as i64)),
                _ => Err(()),
            },
            "append" => match args.split_first() {
                Some((V::Arr(a), rest)) => {
                    let mut a = a.clone();
                    a.extend(rest.iter().cloned());
                    Ok(V::Arr(a))
                }
                _ => Err(()),
            },
            _ => Err(()),
        }
    }
    fn format(&mut self, args: &[V]) -> Res {
        let Some((V::Str(f), rest)) = args.split_first() else {
            return Err(());
        };
        let pieces = placeholders(f);
        let holes = pieces.iter().filter(|p| matches!(p, Piece::Hole(_))).count();
        if holes != rest.len() {
            return Err(());
        }
        let mut rest = rest.iter();
        let mut out = String::new();
        for p in pieces {
            match p {
                Piece::Text(t) => out.push_str(&t),
                Piece::Hole(_) => {
                    let t = self.text(rest.next().unwrap());
                    out.push_str(&t)
                }
            }
        }
        Ok(V::Str(out))
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Piece {
    Text(String),
    Hole(String),
}

/// Splits at placeholders `{name}`, blanks allowed around the name; a hand-written scanner.
pub fn placeholders(s: &str) -> Vec<Piece> {
    let chars: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut text = String::new();
    let mut i = 0;
    while i < chars.len() {
        if chars[i] == '{' {
            let mut j = i + 1;
            while j < chars.len() && chars[j].is_whitespace() {
                j += 1;
            }
            let start = j;
            while j < chars.len() && (chars[j].is_ascii_alphabetic() || chars[j] == '_' || (j > start && chars[j].is_ascii_digit())) {
                j += 1;
            }
            let end = j;
            while j < chars.len() && chars[j].is_whitespace() {
                j += 1;
            }
            if end > start && j < chars.len() && chars[j] == '}' {
                if !text.is_empty() {
                    out.push(Piece::Text(std::mem::take(&mut text)));
                }
                out.push(Piece::Hole(chars[start..end].iter().collect()));
                i = j + 1;
                continue;
            }
        }
        text.push(chars[i]);
        i += 1;
    }
    if !text.is_empty() {
        out.push(Piece::Text(text));
    }
    out
}

pub fn binary(op: Op, a: &V, b: &V) -> Res {
    use std::cmp::Ordering;
    let num = |v: &V| match v {
        V::Int(i) => Some(*i as f64),
        V::Float(f) => Some(*f),
        _ => None,
    };
    let order = || -> Option<Ordering> {
        match (a, b) {
            (V::Int(a), V::Int(b)) => Some(a.cmp(b)),
            (V::Str(a), V::Str(b)) => Some(a.as_bytes().cmp(b.as_bytes())),
            _ => num(a)?.partial_cmp(&num(b)?),
        }
    };
    match op {
        Op::Eq => Ok(V::Bool(lang_eq(a, b))),
        Op::Ne => Ok(V::Bool(!lang_eq(a, b))),
        Op::Lt => Ok(V::Bool(order() == Some(Ordering::Less))),
        Op::Gt => Ok(V::Bool(order() == Some(Ordering::Greater))),
        Op::Le => Ok(V::Bool(matches!(order(), Some(Ordering::Less | Ordering::Equal)))),
        Op::Ge => Ok(V::Bool(matches!(order(), Some(Ordering::Greater | Ordering::Equal)))),
        Op::BitAnd | Op::BitOr | Op::BitXor => match (a, b) {
            (V::Int(a), V::Int(b)) => Ok(V::Int(match op {
                Op::BitAnd => a & b,
                Op::BitOr => a | b,
                _ => a ^ b,
            })),
            _ => Err(()),
        },
        Op::Shl | Op::Shr => match (a, b) {
            (V::Int(a), V::Int(n)) if (0..64).contains(n) => Ok(V::Int(if op == Op::Shl {
                // bits shifted out are lost
                (((*a as u64 as u128) << *n) & u64::MAX as u128) as u64 as i64
            } else {
                let d = (*a as i128).div_euclid(1i128 << *n);
                d as i64
            })),
            _ => Err(()),
        },
        Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Rem => match (a, b) {
            (V::Int(x), V::Int(y)) => {
                let (x, y) = (*x as i128, *y as i128);
                let r = match op {
                    Op::Add => x + y,
                    Op::Sub => x - y,
                    Op::Mul => x * y,
                    Op::Div | Op::Rem if y == 0 => return Err(()),
                    Op::Div => x / y,
                    // i64::MIN % -1 is treated as the division it belongs to
                    Op::Rem if x == i64::MIN as i128 && y == -1 => return Err(()),
                    _ => x % y,
                };
                i64::try_from(r).map(V::Int).map_err(|_| ())
            }
            (V::Str(x), V::Str(y)) if op == Op::Add => Ok(V::Str(format!("{}{}", x, y))),
            _ => match (num(a), num(b)) {
                (Some(x), Some(y)) => Ok(V::Float(match op {
                    Op::Add => x + y,
                    Op::Sub => x - y,
                    Op::Mul => x * y,
                    Op::Div => x / y,
                    _ => x % y,
                })),
                _ => Err(()),
            },
        },
        Op::Or | Op::And => unreachable!(),
    }
}

// ---- programs that run to their end ----

/// Changes the parts that would fail, in the order of evaluation and keeping their operands, so that most programs run to their end.
pub fn repair(statements: &[E], vars: &Vars) -> Vec<E> {
    let mut m = Machine { vars: vars.clone(), ..Machine::default() };
    statements.iter().map(|e| fix(e, &mut m).0).collect()
}

fn fix_all(items: &[E], m: &mut Machine) -> Vec<E> {
    items.iter().map(|e| fix(e, m).0).collect()
}

/// The repaired expression and its value; m is left as it is after evaluating it.
fn fix(e: &E, m: &mut Machine) -> (E, V) {
    let b = |e: E| Box::new(e);
    let before = m.vars.clone();
    let out = match e {
        E::Int(_) | E::Float(_) | E::Bool(_) | E::Str(_) | E::Var(_) => e.clone(),
        E::Arr(items) => E::Arr(fix_all(items, m)),
        E::Map(pairs) => E::Map(pairs.iter().map(|(k, v)| (fix(k, m).0, fix(v, m).0)).collect()),
        E::Index(a, i) => {
            let a = fix(a, m).0;
            E::Index(b(a), b(fix(i, m).0))
        }
        E::Field(a, n) => E::Field(b(fix(a, m).0), n.clone()),
        E::Let(n, v) => E::Let(n.clone(), b(fix(v, m).0)),
        E::Neg(a) => E::Neg(b(fix(a, m).0)),
        E::Not(a) => E::Not(b(fix(a, m).0)),
        E::Bin(op @ (Op::And | Op::Or), x, y) => {
            let (x, v) = fix(x, m);
            let taken = truthy(&v) == (*op == Op::And);
            let mut other = Machine { vars: m.vars.clone(), ..Machine::default() };
            let y = fix(y, if taken { m } else { &mut other }).0;
            E::Bin(*op, b(x), b(y))
        }
        E::Bin(op, x, y) => {
            let x = fix(x, m).0;
            E::Bin(*op, b(x), b(fix(y, m).0))
        }
        E::If(c, x, y) => {
            let (c, v) = fix(c, m);
            let mut other = Machine { vars: m.vars.clone(), ..Machine::default() };
            let (x, y) = if truthy(&v) {
                let x = fix_all(x, m);
                (x, fix_all(y, &mut other))
            } else {
                let x = fix_all(x, &mut other);
                (x, fix_all(y, m))
            };
            E::If(b(c), x, y)
        }
        E::Call(n, args) => E::Call(n.clone(), fix_all(args, m)),
    };
    for candidate in std::iter::once(out.clone()).chain(substitutes(&out)) {
        m.vars = before.clone();
        m.unpredictable = false;
        if let Ok(v) = m.eval(&candidate) {
            if !m.unpredictable {
                return (candidate, v);
            }
        }
    }
    m.vars = before;
    m.unpredictable = false;
    (E::Int(1), V::Int(1))
}

/// What may stand for an expression whose parts are fine but which fails, most alike first.
fn substitutes(e: &E) -> Vec<E> {
    let b = |e: &E| Box::new(e.clone());
    let modulo = |e: &E| E::Bin(Op::Rem, b(e), Box::new(E::Int(1000)));
    match e {
        E::Var(n) => vec![match n.as_str() {
            "i" | "j" | "e1" | "letx" | "_" => E::Int(4),
            "f" | "g" | "E5" | "iff" => E::Float("2.5".into()),
            "p" | "q" | "truex" | "false_" => E::Bool(true),
            "s" | "t" | "requested" | "Let" => E::Str("v".into()),
            "a" | "b" | "test1" | "else2" => E::Arr(vec![E::Int(3), E::Int(2)]),
            _ => E::Map(vec![(E::Str("k".into()), E::Int(8)), (E::Str("id".into()), E::Int(9))]),
        }],
        E::Index(a, i) => vec![
            E::Index(Box::new(E::Arr(vec![(**a).clone(), E::Int(5)])), b(i)),
            E::Index(b(a), Box::new(E::Int(0))),
            E::Index(Box::new(E::Arr(vec![(**a).clone(), (**i).clone()])), Box::new(E::Int(1))),
        ],
        E::Field(a, n) => vec![E::Field(Box::new(E::Map(vec![(E::Str(n.clone()), (**a).clone())])), n.clone())],
        E::Neg(a) => vec![E::Neg(Box::new(modulo(a))), E::Not(b(a))],
        E::Bin(op @ (Op::Shl | Op::Shr), x, y) => vec![
            E::Bin(*op, b(x), Box::new(E::Bin(Op::BitAnd, b(y), Box::new(E::Int(31))))),
            E::Bin(*op, b(x), Box::new(E::Int(3))),
            E::Bin(*op, Box::new(E::Int(77)), b(y)),
            E::Bin(Op::Ne, b(x), b(y)),
        ],
        E::Bin(op, x, y) => vec![
            E::Bin(*op, Box::new(modulo(x)), Box::new(modulo(y))),
            E::Bin(*op, b(x), Box::new(E::Int(7))),
            E::Bin(*op, b(x), Box::new(E::Str("w".into()))),
            E::Bin(*op, Box::new(E::Int(7)), b(y)),
            E::Bin(*op, Box::new(E::Str("w".into())), b(y)),
            E::Bin(Op::Ne, b(x), b(y)),
        ],
        E::Call(n, args) if n == "length" => vec![E::Call(n.clone(), vec![E::Arr(args.clone())])],
        E::Call(n, args) if n == "append" => vec![E::Call(n.clone(), {
            let mut all = vec![E::Arr(vec![])];
            all.extend(args.iter().cloned());
            all
        })],
        E::Call(_, args) => {
            let mut all = vec![E::Str(args.iter().skip(1).map(|_| "{v}").collect::<Vec<_>>().join("-"))];
            all.extend(args.iter().skip(1).cloned());
            vec![E::Call("format".into(), all), E::Arr(args.clone())]
        }
        _ => vec![],
    }
}
