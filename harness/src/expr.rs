//! Value expressions and queries: syntax trees, their meaning, and how they are written.
use crate::engine::Cx;
use crate::model::*;
use num::{Signed, Zero};
use regex::Regex;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local! {
    static CACHE: RefCell<HashMap<String, Rc<Regex>>> = RefCell::new(HashMap::new());
}
/// A compiled regular expression
pub fn rx(s: &str) -> Rc<Regex> {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 2000 {
            c.clear();
        }
        c.entry(s.to_string()).or_insert_with(|| Rc::new(Regex::new(s).unwrap())).clone()
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Lt,
    Le,
    Gt,
    Ge,
    Eq,
    Ne,
    And,
    Or,
}
#[derive(Clone, Debug)]
pub enum E {
    Num(Q),
    Money(Amt),
    Amount,
    Account,
    Payee,
    Note,
    Date,
    Re(String),
    Str(String),
    Neg(Box<E>),
    Not(Box<E>),
    Abs(Box<E>),
    Any(Box<E>),
    HasTag(Box<E>),
    Tag(Box<E>),
    ToDate(Date),
    Bin(Op, Box<E>, Box<E>),
    /// =~ with a regular expression on the right
    Match(Box<E>, String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Num(Q),
    Money(Amt),
    Bool(bool),
    Account(String),
    Payee(String),
    Note,
    Date(Date),
    Re(String),
    Str(Option<String>),
}
impl V {
    fn num(&self) -> &Q {
        match self {
            V::Num(n) => n,
            V::Money(a) => &a.q,
            x => panic!("not a number: {:?}", x),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            V::Bool(b) => *b,
            x => panic!("not a boolean: {:?}", x),
        }
    }
}
impl E {
    pub fn eval(&self, p: &MPost, t: &MTxn) -> V {
        match self {
            E::Num(n) => V::Num(n.clone()),
            E::Money(a) => V::Money(a.clone()),
            E::Amount => V::Money(p.amt.clone()),
            E::Account => V::Account(p.acct.clone()),
            E::Payee => V::Payee(p.payee.clone()),
            E::Note => V::Note,
            E::Date => V::Date(t.date),
            E::Re(r) => V::Re(r.clone()),
            E::Str(s) => V::Str(Some(s.clone())),
            E::ToDate(d) => V::Date(*d),
            E::Neg(e) => match e.eval(p, t) {
                V::Num(n) => V::Num(-n),
                V::Money(a) => V::Money(Amt { q: -a.q, c: a.c }),
                x => panic!("minus {:?}", x),
            },
            E::Not(e) => V::Bool(!e.eval(p, t).bool()),
            E::Abs(e) => match e.eval(p, t) {
                V::Num(n) => V::Num(n.abs()),
                V::Money(a) => V::Money(Amt { q: a.q.abs(), c: a.c }),
                x => panic!("abs {:?}", x),
            },
            E::Any(e) => V::Bool(t.posts.iter().any(|x| e.eval(x, t).bool())),
            E::HasTag(e) => match e.eval(p, t) {
                V::Re(r) => {
                    let r = rx(&r);
                    V::Bool(p.tags.iter().any(|x| r.is_match(&x.0)))
                }
                x => panic!("has_tag {:?}", x),
            },
            E::Tag(e) => match e.eval(p, t) {
                V::Re(r) => {
                    let r = rx(&r);
                    V::Str(p.tags.iter().find(|x| r.is_match(&x.0)).and_then(|x| x.1.clone()))
                }
                V::Str(Some(s)) => V::Str(p.tags.iter().find(|x| x.0 == s).and_then(|x| x.1.clone())),
                x => panic!("tag {:?}", x),
            },
            E::Match(e, r) => {
                let r = rx(r);
                V::Bool(match e.eval(p, t) {
                    V::Account(s) | V::Payee(s) => r.is_match(&s),
                    V::Note => t.notes.iter().any(|n| r.is_match(n)),
                    V::Str(s) => s.map_or(false, |s| r.is_match(&s)),
                    x => panic!("{:?} =~", x),
                })
            }
            E::Bin(op, a, b) => {
                let (x, y) = (a.eval(p, t), b.eval(p, t));
                match op {
                    Op::And => V::Bool(x.bool() && y.bool()),
                    Op::Or => V::Bool(x.bool() || y.bool()),
                    Op::Add | Op::Sub => {
                        let s = if *op == Op::Add { q(1) } else { q(-1) };
                        match (x, y) {
                            (V::Num(x), V::Num(y)) => V::Num(x + s * y),
                            (V::Money(x), V::Money(y)) => {
                                assert!(x.c == y.c);
                                V::Money(Amt { q: x.q + s * y.q, c: x.c })
                            }
                            (x, y) => panic!("{:?} + {:?}", x, y),
                        }
                    }
                    Op::Mul => match (x, y) {
                        (V::Num(x), V::Num(y)) => V::Num(x * y),
                        (V::Money(a), V::Num(n)) | (V::Num(n), V::Money(a)) => {
                            V::Money(Amt { q: a.q * n, c: a.c })
                        }
                        (x, y) => panic!("{:?} * {:?}", x, y),
                    },
                    Op::Div => match (x, y) {
                        (V::Num(x), V::Num(y)) => V::Num(x / y),
                        (V::Money(a), V::Num(n)) => V::Money(Amt { q: a.q / n, c: a.c }),
                        (x, y) => panic!("{:?} / {:?}", x, y),
                    },
                    Op::Eq | Op::Ne => {
                        let r = match (&x, &y) {
                            (V::Money(a), V::Money(b)) => a.q == b.q && (a.c == b.c || a.q.is_zero()),
                            (V::Bool(a), V::Bool(b)) => a == b,
                            (V::Date(a), V::Date(b)) => a == b,
                            (V::Str(a), V::Str(b)) => a == b,
                            _ => x.num() == y.num(),
                        };
                        V::Bool(r == (*op == Op::Eq))
                    }
                    Op::Lt | Op::Le | Op::Gt | Op::Ge => {
                        let o = match (&x, &y) {
                            (V::Date(a), V::Date(b)) => a.cmp(b),
                            _ => x.num().cmp(y.num()),
                        };
                        use std::cmp::Ordering::*;
                        V::Bool(match op {
                            Op::Lt => o == Less,
                            Op::Le => o != Greater,
                            Op::Gt => o == Greater,
                            _ => o != Less,
                        })
                    }
                }
            }
        }
    }
    fn level(&self) -> u32 {
        match self {
            E::Bin(Op::Or, ..) => 1,
            E::Bin(Op::And, ..) => 2,
            E::Not(_) => 3,
            E::Bin(Op::Lt, ..)
            | E::Bin(Op::Le, ..)
            | E::Bin(Op::Gt, ..)
            | E::Bin(Op::Ge, ..)
            | E::Bin(Op::Eq, ..)
            | E::Bin(Op::Ne, ..)
            | E::Match(..) => 4,
            E::Bin(Op::Add, ..) | E::Bin(Op::Sub, ..) => 5,
            E::Bin(Op::Mul, ..) | E::Bin(Op::Div, ..) => 6,
            _ => 7,
        }
    }
}

/// How names of commodities are written
pub type Namer<'a> = dyn FnMut(&mut Cx, &str) -> String + 'a;

/// Writes an expression with the parentheses it needs, and sometimes more. No double quotes unless dq.
/// White space within an expression
pub fn space(cx: &mut Cx) -> &'static str {
    if cx.ws == 0 || !cx.chance(20) {
        return " ";
    }
    if cx.ws > 1 && cx.chance(50) {
        *cx.pick(&["\n    ", "\n\t", " \n  "])
    } else {
        *cx.pick(&["\t", "  ", " \t", "\t\t"])
    }
}
/// A name which is a variable, or starts with one and goes on with a sign, cannot come first
fn can_lead(name: &str) -> bool {
    let variables = [
        "account", "payee", "date", "note", "amount", "total_amount", "cost", "value", "gain", "depth", "posting_number",
        "posting_count", "cleared", "real", "not_automated", "running_total", "T", "N", "O", "Z", "R", "X", "n", "l", "g", "v", "b",
    ];
    variables.iter().all(|v| match name.strip_prefix(v) {
        None => true,
        Some(rest) => rest.chars().next().map_or(false, |c| c.is_alphabetic() || c.is_ascii_digit() || c == '_'),
    })
}
/// Letters and digits, the first one a letter
fn plain_word(name: &str) -> bool {
    name.chars().next().map_or(false, |c| c.is_alphabetic()) && name.chars().all(|c| c.is_alphabetic() || c.is_ascii_digit())
}
pub fn write_expr(cx: &mut Cx, e: &E, min: u32, dq: bool, namer: &mut Namer) -> String {
    let lvl = e.level();
    let extra = cx.chance(8);
    let s = match e {
        E::Num(n) => write_num(cx, n),
        E::Money(a) => {
            let n = write_num(cx, &a.q.abs());
            let name = namer(cx, &a.c);
            let quoted = (needs_quotes(&name) && !plain_word(&name)) || cx.chance(10);
            let name = if quoted {
                if dq && cx.chance(50) {
                    format!("\"{}\"", name)
                } else {
                    format!("'{}'", name)
                }
            } else {
                name
            };
            let first = quoted || can_lead(&name);
            let body = if first && cx.chance(40) {
                format!("{}{}{}", name, if quoted && cx.chance(20) { "" } else { space(cx) }, n)
            } else {
                format!("{}{}{}", n, if cx.chance(70) { space(cx) } else { "" }, name)
            };
            if a.q.is_negative() {
                format!("-{}", body)
            } else {
                body
            }
        }
        E::Amount => "amount".to_string(),
        E::Account => "account".to_string(),
        E::Payee => "payee".to_string(),
        E::Note => "note".to_string(),
        E::Date => "date".to_string(),
        E::Re(r) => format!("/{}/", r),
        E::Str(s) => {
            if dq && cx.chance(50) {
                format!("\"{}\"", s)
            } else {
                format!("'{}'", s)
            }
        }
        E::ToDate(d) => {
            let d = write_cli_date(cx, *d);
            let quote = if dq && cx.chance(50) { '"' } else { '\'' };
            format!("to_date({}{}{})", quote, d, quote)
        }
        E::Neg(x) => {
            let x = write_expr(cx, x, 7, dq, namer);
            format!("-{}{}", if cx.chance(20) { " " } else { "" }, x)
        }
        E::Not(x) => {
            let x = write_expr(cx, x, 3, dq, namer);
            if cx.chance(40) {
                format!("!{}{}", if cx.chance(40) { " " } else { "" }, x)
            } else {
                format!("not {}", x)
            }
        }
        E::Abs(x) | E::Any(x) | E::HasTag(x) | E::Tag(x) => {
            let f = match e {
                E::Abs(_) => "abs",
                E::Any(_) => "any",
                E::HasTag(_) => "has_tag",
                _ => "tag",
            };
            let x = write_expr(cx, x, 0, dq, namer);
            let sp = if cx.chance(10) { space(cx) } else { "" };
            format!("{}({}{}{})", f, sp, x, sp)
        }
        E::Match(a, r) => {
            let a = write_expr(cx, a, 5, dq, namer);
            format!("{} =~ /{}/", a, r)
        }
        E::Bin(op, a, b) => {
            let (la, lb) = match op {
                // comparisons are not chained
                Op::Lt | Op::Le | Op::Gt | Op::Ge | Op::Eq | Op::Ne => (5, 5),
                _ => (lvl, lvl + 1),
            };
            let l = write_expr(cx, a, la, dq, namer);
            let r = write_expr(cx, b, lb, dq, namer);
            let o = match op {
                Op::Add => "+",
                Op::Sub => "-",
                Op::Mul => "*",
                Op::Div => "/",
                Op::Lt => "<",
                Op::Le => "<=",
                Op::Gt => ">",
                Op::Ge => ">=",
                Op::Eq => "==",
                Op::Ne => "!=",
                Op::And => {
                    if cx.chance(20) {
                        "&"
                    } else {
                        "and"
                    }
                }
                Op::Or => {
                    if cx.chance(20) {
                        "|"
                    } else {
                        "or"
                    }
                }
            };
            // the end of a commodity needs a space
            let tight = matches!(op, Op::Add | Op::Mul | Op::Lt | Op::Gt) && cx.chance(20);
            if tight {
                format!("{}{}{}", l, o, r)
            } else {
                format!("{}{}{}{}{}", l, space(cx), o, space(cx), r)
            }
        }
    };
    if lvl < min || extra {
        let sp = if cx.chance(15) { " " } else { "" };
        format!("({}{}{})", sp, s, sp)
    } else {
        s
    }
}

/// A finite decimal, exactly
pub fn write_num(cx: &mut Cx, n: &Q) -> String {
    let pad = if cx.chance(20) { cx.below(3) } else { 0 };
    decimal(n, pad)
}
/// The decimal representation, which has to be finite
pub fn decimal(n: &Q, pad: usize) -> String {
    let ten = num::BigInt::from(10);
    let mut k = 0;
    let mut x = n.abs();
    while !x.is_integer() {
        x = x * Q::from(ten.clone());
        k += 1;
        assert!(k < 500, "not a finite decimal: {}", n);
    }
    let mut digits = x.to_integer().to_string();
    let k = k + pad;
    for _ in 0..pad {
        digits.push('0');
    }
    while digits.len() < k + 1 {
        digits.insert(0, '0');
    }
    let (i, d) = digits.split_at(digits.len() - k);
    let sign = if n.is_negative() { "-" } else { "" };
    if k == 0 {
        format!("{}{}", sign, i)
    } else {
        format!("{}{}.{}", sign, i, d)
    }
}
pub fn write_cli_date(cx: &mut Cx, d: Date) -> String {
    use chrono::Datelike;
    let sep = if cx.chance(50) { "/" } else { "-" };
    let sep2 = if cx.chance(10) { if sep == "/" { "-" } else { "/" } } else { sep };
    let m = if cx.chance(40) { format!("{}", d.month()) } else { format!("{:02}", d.month()) };
    let day = if cx.chance(40) { format!("{}", d.day()) } else { format!("{:02}", d.day()) };
    format!("{:04}{}{}{}{}", d.year(), sep, m, sep2, day)
}
/// Commodities with anything but letters and currency signs have to be quoted
pub fn needs_quotes(name: &str) -> bool {
    name.is_empty() || !name.chars().all(|c| c.is_alphabetic() || "$€£¥₿_".contains(c))
}

#[derive(Clone, Debug)]
pub enum Term {
    Word(String),
    Slash(String),
    Payee(String),
    Tag(String),
    Expr(E),
}
impl Term {
    pub fn matches(&self, p: &MPost, t: &MTxn) -> bool {
        let i = |r: &str| rx(&format!("(?i){}", r));
        match self {
            Term::Word(r) => i(r).is_match(&p.acct),
            Term::Slash(r) => rx(r).is_match(&p.acct),
            Term::Payee(r) => i(r).is_match(&p.payee),
            Term::Tag(r) => {
                let r = i(r);
                p.tags.iter().any(|x| r.is_match(&x.0))
            }
            Term::Expr(e) => e.eval(p, t).bool(),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Join {
    Nothing,
    Or,
    And,
}
/// Terms, each with how it is joined to the one before
#[derive(Clone, Debug, Default)]
pub struct Query {
    pub terms: Vec<(Join, Term)>,
}
impl Query {
    pub fn matches(&self, p: &MPost, t: &MTxn) -> bool {
        if self.terms.is_empty() {
            return true;
        }
        let mut any = false;
        let mut all = true;
        for (k, (j, term)) in self.terms.iter().enumerate() {
            if k > 0 && *j != Join::And {
                any |= all;
                all = true;
            }
            all &= term.matches(p, t);
        }
        any | all
    }
    /// The arguments of the command line
    pub fn args(&self, cx: &mut Cx, namer: &mut Namer) -> Vec<String> {
        let mut v = vec![];
        for (k, (j, term)) in self.terms.iter().enumerate() {
            if k > 0 {
                match j {
                    Join::Nothing => {}
                    Join::Or => v.push("or".to_string()),
                    Join::And => v.push("and".to_string()),
                }
            }
            match term {
                Term::Word(r) => v.push(r.clone()),
                Term::Slash(r) => v.push(format!("/{}/", r)),
                Term::Payee(r) => v.push(format!("@{}", r)),
                Term::Tag(r) => v.push(format!("%{}", r)),
                Term::Expr(e) => {
                    v.push("expr".to_string());
                    let s = write_expr(cx, e, 0, true, namer);
                    // what starts with a dash is an option
                    v.push(if s.starts_with('-') { format!("({})", s) } else { s });
                }
            }
        }
        v
    }
    /// As the query of an automated transaction
    pub fn text(&self, cx: &mut Cx, namer: &mut Namer) -> String {
        let mut v: Vec<String> = vec![];
        for (k, (j, term)) in self.terms.iter().enumerate() {
            if k > 0 {
                match j {
                    Join::Nothing => {}
                    Join::Or => v.push("or".to_string()),
                    Join::And => v.push("and".to_string()),
                }
            }
            let quote = |s: String, always: bool| {
                if always || s.contains(' ') {
                    format!("\"{}\"", s)
                } else {
                    s
                }
            };
            match term {
                Term::Word(r) => v.push(quote(r.clone(), false)),
                Term::Slash(r) => v.push(format!("/{}/", r)),
                Term::Payee(r) => v.push(quote(format!("@{}", r), false)),
                Term::Tag(r) => v.push(quote(format!("%{}", r), false)),
                Term::Expr(e) => {
                    v.push("expr".to_string());
                    let s = write_expr(cx, e, 0, false, namer);
                    v.push(quote(s, true));
                }
            }
        }
        v.join(" ")
    }
}
