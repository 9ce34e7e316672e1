//! Generators shared by the properties.

use crate::lang::{Op, E, OPS};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Strategy, Union};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Int,
    Float,
    Bool,
    Str,
    Arr,
    Map,
}
pub const TYPES: [Ty; 6] = [Ty::Int, Ty::Float, Ty::Bool, Ty::Str, Ty::Arr, Ty::Map];

pub fn union<T: std::fmt::Debug + 'static>(items: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    Union::new_weighted(items).boxed()
}

/// The integers where things change.
pub fn edge_int() -> BoxedStrategy<i64> {
    let mut edges: Vec<i64> = vec![0, 1, 2, 3, 7, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 65535, 65536];
    for p in [31u32, 32, 53, 62] {
        let n = 1i64 << p;
        edges.extend([n - 1, n, n + 1]);
    }
    edges.extend([i64::MAX, i64::MAX - 1, 3037000499, 3037000500, 4611686018427387904]);
    prop_oneof![
        5 => 0i64..20,
        4 => proptest::sample::select(edges),
        1 => 0..=i64::MAX,
        1 => (0u32..63).prop_flat_map(|p| 0..=(1i64 << p)),
    ]
    .boxed()
}

pub fn float_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0u32..100, 0u32..1000).prop_map(|(a, b)| format!("{}.{}", a, b)),
        2 => proptest::sample::select(vec!["0.0", "1.0", "0.5", "2.0", "3.14159265358979323846264338327950288", "9007199254740993.0", "0.1", "0.2", "0.3",
             "9223372036854775807.0", "9223372036854775808.0", "1.7976931348623157e308", "2.2250738585072014e-308", "5e-324", "1e309", "4.", "1e3", "2E-3", "7e+2", "12.5e10"]).prop_map(String::from),
        1 => (0u64..u64::MAX, 1usize..19).prop_map(|(a, n)| {
            let t = format!("{:020}", a);
            format!("{}.{}", t[..n].trim_start_matches('0').to_string() + "0", &t[n..])
        }),
        1 => (0u32..1000, 0u32..1000, -320i32..310).prop_map(|(a, b, e)| format!("{}.{}e{}", a, b, e)),
    ]
    .boxed()
}

/// Characters a string literal may hold: everything but the quotation mark.
pub fn any_text(max: usize) -> BoxedStrategy<String> {
    let odd = proptest::sample::select(
        "\\'`{}[]()<>:;,.=&|!?#@%+-*/^~$ \t\n\r\u{0}\u{7f}éßñ中文日本語🎉🦀\u{200d}\u{feff}\u{301}٣Ωж".chars().collect::<Vec<char>>(),
    );
    let c = prop_oneof![6 => proptest::char::range('a', 'z'), 2 => proptest::char::range('0', '9'), 1 => proptest::char::range('A', 'Z'), 4 => odd, 1 => any::<char>()];
    vec(c, 0..max).prop_map(|v| v.into_iter().filter(|c| *c != '"').collect()).boxed()
}

pub fn short_str() -> BoxedStrategy<String> {
    prop_oneof![
        4 => proptest::sample::select(vec!["", "a", "b", "ab", "abc", "A", "10", "9", "null", "true", "let x = 1", "{a}", "{{a}}", "é", "z", "中", "a b"]).prop_map(String::from),
        2 => any_text(12),
    ]
    .boxed()
}

/// Names, with look-alikes of keywords and literals; by type, so that programs are mostly well typed.
pub fn name_of(ty: Ty) -> BoxedStrategy<String> {
    let names: Vec<&str> = match ty {
        Ty::Int => vec!["i", "j", "e1", "letx", "_"],
        Ty::Float => vec!["f", "g", "E5", "iff"],
        Ty::Bool => vec!["p", "q", "truex", "false_"],
        Ty::Str => vec!["s", "t", "requested", "Let"],
        Ty::Arr => vec!["a", "b", "test1", "else2"],
        Ty::Map => vec!["m", "n", "_m_1", "If"],
    };
    proptest::sample::select(names).prop_map(String::from).boxed()
}

pub fn key() -> BoxedStrategy<String> {
    proptest::sample::select(vec!["k", "name", "x", "y", "id", "k1"]).prop_map(String::from).boxed()
}

pub struct Gen {
    /// levels[depth][type]
    levels: Vec<Vec<BoxedStrategy<E>>>,
    pub vars: bool,
    pub calls: bool,
    pub lets: bool,
    pub ifs: bool,
    /// weight of operands of an arbitrary type
    pub wild: u32,
}

fn b(e: E) -> Box<E> {
    Box::new(e)
}

impl Gen {
    pub fn new(depth: usize, vars: bool, lets: bool, ifs: bool, calls: bool, wild: u32) -> Gen {
        let mut g = Gen {
            levels: Vec::new(),
            vars,
            calls,
            lets,
            ifs,
            wild,
        };
        let leaves = TYPES.iter().map(|t| g.leaf(*t)).collect();
        g.levels.push(leaves);
        for d in 1..=depth {
            let row = TYPES.iter().map(|t| g.node(*t, d)).collect();
            g.levels.push(row);
        }
        g
    }
    pub fn depth(&self) -> usize {
        self.levels.len() - 1
    }
    /// mostly of this type
    pub fn of(&self, ty: Ty, depth: usize) -> BoxedStrategy<E> {
        let t = self.levels[depth][ty as usize].clone();
        if self.wild == 0 {
            return t;
        }
        union(vec![(30, t), (self.wild, self.any(depth))])
    }
    pub fn any(&self, depth: usize) -> BoxedStrategy<E> {
        Union::new(self.levels[depth].clone()).boxed()
    }
    fn leaf(&self, ty: Ty) -> BoxedStrategy<E> {
        let literal = match ty {
            Ty::Int => edge_int().prop_map(E::Int).boxed(),
            Ty::Float => float_text().prop_map(E::Float).boxed(),
            Ty::Bool => any::<bool>().prop_map(E::Bool).boxed(),
            Ty::Str => short_str().prop_map(E::Str).boxed(),
            Ty::Arr => vec(edge_int().prop_map(E::Int), 0..4).prop_map(E::Arr).boxed(),
            Ty::Map => vec((key().prop_map(E::Str), edge_int().prop_map(E::Int)), 0..3).prop_map(E::Map).boxed(),
        };
        if self.vars {
            union(vec![(2, literal), (3, name_of(ty).prop_map(E::Var).boxed())])
        } else {
            literal
        }
    }
    fn node(&self, ty: Ty, d: usize) -> BoxedStrategy<E> {
        let sub = |t: Ty| self.of(t, d - 1);
        let ops = |list: &[Op], a: BoxedStrategy<E>, c: BoxedStrategy<E>| {
            (proptest::sample::select(list.to_vec()), a, c).prop_map(|(o, x, y)| E::Bin(o, b(x), b(y))).boxed()
        };
        let arith = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem];
        let bits = [Op::BitAnd, Op::BitOr, Op::BitXor];
        let shifts = [Op::Shl, Op::Shr];
        let compare: Vec<Op> = OPS.into_iter().filter(|o| o.is_compare()).collect();
        let logic = [Op::And, Op::Or];
        let mut items: Vec<(u32, BoxedStrategy<E>)> = vec![(3, self.levels[d - 1][ty as usize].clone())];
        match ty {
            Ty::Int => {
                items.push((8, ops(&arith, sub(Ty::Int), sub(Ty::Int))));
                items.push((4, ops(&bits, sub(Ty::Int), sub(Ty::Int))));
                items.push((2, ops(&shifts, sub(Ty::Int), (0i64..66).prop_map(E::Int).boxed())));
                items.push((1, ops(&shifts, sub(Ty::Int), sub(Ty::Int))));
                items.push((2, sub(Ty::Int).prop_map(|e| E::Neg(b(e))).boxed()));
                items.push((2, sub(Ty::Int).prop_map(|e| E::Not(b(e))).boxed()));
                items.push((2, (sub(Ty::Arr), prop_oneof![(0i64..4).prop_map(E::Int).boxed(), sub(Ty::Int)]).prop_map(|(a, i)| E::Index(b(a), b(i))).boxed()));
                items.push((2, (sub(Ty::Map), key()).prop_map(|(m, k)| E::Field(b(m), k)).boxed()));
                items.push((1, (sub(Ty::Map), key()).prop_map(|(m, k)| E::Index(b(m), b(E::Str(k)))).boxed()));
                if self.calls {
                    let t = prop_oneof![sub(Ty::Str), sub(Ty::Arr), sub(Ty::Map)];
                    items.push((2, t.prop_map(|e| E::Call("length".into(), vec![e])).boxed()));
                }
            }
            Ty::Float => {
                items.push((6, ops(&arith, sub(Ty::Float), sub(Ty::Float))));
                items.push((3, ops(&arith, sub(Ty::Float), sub(Ty::Int))));
                items.push((3, ops(&arith, sub(Ty::Int), sub(Ty::Float))));
                items.push((2, sub(Ty::Float).prop_map(|e| E::Neg(b(e))).boxed()));
            }
            Ty::Bool => {
                for t in TYPES {
                    items.push((2, ops(&compare, sub(t), sub(t))));
                }
                items.push((2, ops(&compare, sub(Ty::Int), sub(Ty::Float))));
                items.push((2, ops(&compare, sub(Ty::Float), sub(Ty::Int))));
                items.push((6, ops(&logic, sub(Ty::Bool), sub(Ty::Bool))));
                items.push((3, sub(Ty::Bool).prop_map(|e| E::Not(b(e))).boxed()));
                items.push((1, sub(Ty::Str).prop_map(|e| E::Not(b(e))).boxed()));
            }
            Ty::Str => {
                items.push((6, ops(&[Op::Add], sub(Ty::Str), sub(Ty::Str))));
                if self.calls {
                    items.push((2, (sub(Ty::Str), sub(Ty::Int)).prop_map(|(s, i)| E::Call("format".into(), vec![E::Bin(Op::Add, b(s), b(E::Str("{v}".into()))), i])).boxed()));
                }
            }
            Ty::Arr => {
                items.push((4, vec(self.any(d - 1), 0..4).prop_map(E::Arr).boxed()));
                if self.calls {
                    items.push((3, (sub(Ty::Arr), vec(self.any(d - 1), 0..3)).prop_map(|(a, mut r)| {
                        r.insert(0, a);
                        E::Call("append".into(), r)
                    }).boxed()));
                }
            }
            Ty::Map => {
                items.push((4, vec((key().prop_map(E::Str), self.any(d - 1)), 0..4).prop_map(E::Map).boxed()));
                items.push((1, vec((prop_oneof![sub(Ty::Str), sub(Ty::Int), sub(Ty::Bool)], self.any(d - 1)), 0..3).prop_map(E::Map).boxed()));
            }
        }
        // any type
        items.push((1, ops(&logic, sub(Ty::Bool), sub(ty))));
        if self.lets {
            items.push((2, (name_of(ty), sub(ty)).prop_map(|(n, e)| E::Let(n, b(e))).boxed()));
        }
        if self.ifs {
            let block = || vec(self.any(d - 1), 0..2);
            items.push((3, (sub(Ty::Bool), block(), sub(ty), block(), sub(ty)).prop_map(|(c, mut x, xe, mut y, ye)| {
                x.push(xe);
                y.push(ye);
                E::If(b(c), x, y)
            }).boxed()));
            items.push((1, (sub(Ty::Bool), block(), sub(ty)).prop_map(|(c, mut x, xe)| {
                x.push(xe);
                E::If(b(c), x, vec![])
            }).boxed()));
        }
        union(items)
    }
}

pub fn layout() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![1 => Just(vec![]), 4 => vec(any::<u8>(), 1..24)].boxed()
}
