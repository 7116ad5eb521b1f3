//! Abstract journals and an independent model of what they mean.
use chrono::NaiveDate;
use num::{BigInt, BigRational, One, Signed, Zero};
use crate::expr::rx;
use std::collections::{BTreeMap, BTreeSet};

pub type Q = BigRational;
pub type Bal = BTreeMap<String, Q>;
pub type Date = NaiveDate;

pub fn q(n: i64) -> Q {
    Q::from(BigInt::from(n))
}
pub fn qd(n: i64, decimals: u32) -> Q {
    Q::new(BigInt::from(n), num::pow(BigInt::from(10), decimals as usize))
}
/// Adds to a balance, which never keeps zero entries
pub fn badd(b: &mut Bal, c: &str, x: &Q) {
    let e = b.entry(c.to_string()).or_insert_with(Q::zero);
    *e = &*e + x;
    if e.is_zero() {
        b.remove(c);
    }
}
pub fn bsum(a: &Bal, b: &Bal) -> Bal {
    let mut r = a.clone();
    for (c, x) in b {
        badd(&mut r, c, x);
    }
    r
}
pub fn bneg(a: &Bal) -> Bal {
    a.iter().map(|(c, x)| (c.clone(), -x.clone())).collect()
}
/// What may remain of a transaction: nothing, or several commodities which are not all of one sign
pub fn can_be_zero(b: &Bal) -> bool {
    b.is_empty() || (b.values().any(|x| x.is_positive()) && b.values().any(|x| x.is_negative()))
}
/// Two decimals, halves away from zero, by integer arithmetic
pub fn fmt2(x: &Q) -> String {
    let n = x.numer().abs() * BigInt::from(200);
    let d = x.denom().abs();
    // floor((200 n/d + 1) / 2) = round half up of 100 n/d
    let r: BigInt = (n + &d) / (d * BigInt::from(2));
    let neg = x.is_negative() && !r.is_zero();
    let s = r.to_string();
    let s = if s.len() < 3 { format!("{}{}", "0".repeat(3 - s.len()), s) } else { s };
    format!("{}{}.{}", if neg { "-" } else { "" }, &s[..s.len() - 2], &s[s.len() - 2..])
}
pub fn fmt_amt(x: &Q, c: &str) -> String {
    format!("{} {}", fmt2(x), c)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Amt {
    pub q: Q,
    pub c: String,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Real,
    Virt,
    Brack,
}
#[derive(Clone, Debug)]
pub enum Cost {
    Unit(Amt),
    Total(Amt),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Comment {
    Plain(String),
    /// some text, then :a:b:
    Flags(String, Vec<String>),
    Kv(String, String),
}
impl Comment {
    pub fn text(&self) -> String {
        match self {
            Comment::Plain(s) => s.clone(),
            Comment::Flags(p, t) => format!("{}:{}:", p, t.join(":")),
            Comment::Kv(k, v) => format!("{}: {}", k, v),
        }
    }
    pub fn tags(&self) -> Vec<(String, Option<String>)> {
        match self {
            Comment::Plain(_) => vec![],
            Comment::Flags(_, t) => t.iter().map(|x| (x.clone(), None)).collect(),
            Comment::Kv(k, v) => vec![(k.clone(), Some(v.clone()))],
        }
    }
}
#[derive(Clone, Debug)]
pub struct Post {
    pub acct: String,
    pub kind: Kind,
    pub amt: Option<Amt>,
    pub cost: Option<Cost>,
    pub bal: Option<Amt>,
    pub comments: Vec<Comment>,
}
impl Post {
    pub fn new(acct: &str, kind: Kind, amt: Option<Amt>) -> Post {
        Post { acct: acct.to_string(), kind, amt, cost: None, bal: None, comments: vec![] }
    }
}
#[derive(Clone, Debug)]
pub struct Txn {
    pub date: Date,
    pub desc: String,
    pub payee: Option<String>,
    pub header_comment: Option<Comment>,
    pub comments: Vec<Comment>,
    pub posts: Vec<Post>,
    /// identifies the transaction when entries are moved around
    pub id: usize,
}
#[derive(Clone, Debug)]
pub enum AutoAmt {
    Fixed(Amt),
    Factor(Q),
    Expr(crate::expr::E),
}
#[derive(Clone, Debug)]
pub struct AutoPost {
    pub acct: String,
    pub kind: Kind,
    pub amt: AutoAmt,
}
#[derive(Clone, Debug)]
pub struct Auto {
    pub query: crate::expr::Query,
    pub comments: Vec<Comment>,
    pub posts: Vec<AutoPost>,
}
#[derive(Clone, Debug)]
pub struct AccountDir {
    pub name: String,
    pub aliases: Vec<String>,
    pub payees: Vec<String>,
    pub note: Option<String>,
}
#[derive(Clone, Debug)]
pub struct CommodityDir {
    pub name: String,
    pub aliases: Vec<String>,
    pub note: Option<String>,
}
#[derive(Clone, Debug)]
pub struct PayeeDir {
    pub name: String,
    pub aliases: Vec<String>,
    pub note: Option<String>,
}
#[derive(Clone, Debug)]
pub struct PriceLine {
    pub date: Date,
    pub c: String,
    pub price: Amt,
}
#[derive(Clone, Debug)]
pub enum Entry {
    Txn(Txn),
    Auto(Auto),
    Price(PriceLine),
    Account(AccountDir),
    Commodity(CommodityDir),
    Payee(PayeeDir),
    Tag(String),
    Comment(String),
    /// a file, and what it contains
    Include(String, Vec<Entry>),
    /// a wildcard, and the files which match, in order
    Glob(String, Vec<(String, Vec<Entry>)>),
}

#[derive(Clone, Debug)]
pub struct MPost {
    pub acct: String,
    pub kind: Kind,
    pub amt: Amt,
    pub payee: String,
    pub tags: Vec<(String, Option<String>)>,
    pub auto: bool,
    pub filled: bool,
}
#[derive(Clone, Debug)]
pub struct MTxn {
    pub date: Date,
    pub shown: String,
    pub notes: Vec<String>,
    pub posts: Vec<MPost>,
    pub id: usize,
}
#[derive(Clone, Debug)]
pub struct MPrice {
    pub date: Date,
    /// the ways in which it may be stated
    pub alts: Vec<(String, Amt)>,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub txns: Vec<MTxn>,
    pub prices: Vec<MPrice>,
}

fn flatten<'a>(j: &'a [Entry], out: &mut Vec<&'a Entry>) {
    for e in j {
        match e {
            Entry::Include(_, inner) => flatten(inner, out),
            Entry::Glob(_, files) => files.iter().for_each(|f| flatten(&f.1, out)),
            e => out.push(e),
        }
    }
}
pub fn flat(j: &[Entry]) -> Vec<&Entry> {
    let mut v = vec![];
    flatten(j, &mut v);
    v
}

/// The declared payee of a text
pub fn resolve_payee(dirs: &[&PayeeDir], text: &str) -> String {
    for d in dirs {
        if d.name.to_lowercase() == text.to_lowercase() {
            return d.name.clone();
        }
    }
    for d in dirs {
        for a in &d.aliases {
            if rx(a).is_match(text) {
                return d.name.clone();
            }
        }
    }
    text.to_string()
}
pub const NO_PAYEE: &str = "[Unspecified payee]";

pub fn payee_text(t: &Txn) -> String {
    match &t.payee {
        Some(p) => p.clone(),
        None if t.desc.is_empty() => NO_PAYEE.to_string(),
        None => t.desc.clone(),
    }
}

/// What a posting counts in the balance of its transaction
pub fn counted(amt: &Amt, cost: &Option<Cost>) -> Amt {
    match cost {
        None => amt.clone(),
        Some(Cost::Unit(u)) => Amt { q: &amt.q * &u.q, c: u.c.clone() },
        Some(Cost::Total(t)) => {
            Amt { q: if amt.q.is_negative() { -t.q.clone() } else { t.q.clone() }, c: t.c.clone() }
        }
    }
}

/// Evaluates a journal; Err is the reason why it is not accepted
pub fn evaluate(j: &[Entry], checks: bool) -> Result<Model, String> {
    let entries = flat(j);
    let payee_dirs: Vec<&PayeeDir> =
        entries.iter().filter_map(|e| if let Entry::Payee(p) = e { Some(p) } else { None }).collect();
    let account_dirs: Vec<&AccountDir> =
        entries.iter().filter_map(|e| if let Entry::Account(p) = e { Some(p) } else { None }).collect();
    let mut txns: Vec<&Txn> =
        entries.iter().filter_map(|e| if let Entry::Txn(p) = e { Some(p) } else { None }).collect();
    let autos: Vec<&Auto> =
        entries.iter().filter_map(|e| if let Entry::Auto(p) = e { Some(p) } else { None }).collect();
    txns.sort_by_key(|t| t.date); // stable
    let mut m = Model::default();
    for e in &entries {
        if let Entry::Price(p) = e {
            m.prices.push(MPrice { date: p.date, alts: vec![(p.c.clone(), p.price.clone())] });
        }
    }
    let mut balances: BTreeMap<String, Bal> = BTreeMap::new();
    for t in txns {
        let payee = resolve_payee(&payee_dirs, &payee_text(t));
        let mut mt = MTxn {
            date: t.date,
            shown: if t.payee.is_none() && !t.desc.is_empty() { payee.clone() } else { t.desc.clone() },
            notes: vec![],
            posts: vec![],
            id: t.id,
        };
        let mut ttags = vec![];
        for c in t.header_comment.iter().chain(t.comments.iter()) {
            mt.notes.push(c.text().trim_end().to_string());
            ttags.extend(c.tags());
        }
        let account = |name: &str| -> String {
            if name.to_lowercase().ends_with("unknown") {
                for d in &account_dirs {
                    if d.payees.iter().any(|p| rx(p).is_match(&payee)) {
                        return d.name.clone();
                    }
                }
            }
            name.to_string()
        };
        let mut rest = Bal::new();
        let mut brack = Bal::new();
        let mut fill: Option<MPost> = None;
        let mut virtuals = vec![];
        for p in &t.posts {
            let mut tags = ttags.clone();
            for c in &p.comments {
                tags.extend(c.tags());
            }
            let acct = account(&p.acct);
            let mut mp = MPost {
                acct: acct.clone(),
                kind: p.kind,
                amt: Amt { q: Q::zero(), c: String::new() },
                payee: payee.clone(),
                tags,
                auto: false,
                filled: false,
            };
            if p.kind != Kind::Real {
                match &p.amt {
                    None => return Err("virtual posting without amount".to_string()),
                    Some(a) => {
                        mp.amt = a.clone();
                        if p.kind == Kind::Brack {
                            badd(&mut brack, &a.c, &a.q);
                        }
                        virtuals.push(mp);
                    }
                }
                continue;
            }
            let b = balances.entry(acct).or_insert_with(Bal::new);
            match (&p.amt, &p.bal) {
                (Some(a), bal) => {
                    badd(b, &a.c, &a.q);
                    if let Some(x) = bal {
                        if checks && b.get(&x.c).cloned().unwrap_or_else(Q::zero) != x.q {
                            return Err(format!("assertion of {} fails", mp.acct));
                        }
                    }
                    mp.amt = a.clone();
                    let k = counted(a, &p.cost);
                    badd(&mut rest, &k.c, &k.q);
                    if let Some(cost) = &p.cost {
                        let unit = match cost {
                            Cost::Unit(u) => u.clone(),
                            Cost::Total(t) => Amt { q: &t.q / a.q.abs(), c: t.c.clone() },
                        };
                        m.prices.push(MPrice { date: t.date, alts: vec![(a.c.clone(), unit)] });
                    }
                    mt.posts.push(mp);
                }
                (None, Some(x)) => {
                    let d = &x.q - b.get(&x.c).cloned().unwrap_or_else(Q::zero);
                    badd(b, &x.c, &d);
                    badd(&mut rest, &x.c, &d);
                    mp.amt = Amt { q: d, c: x.c.clone() };
                    mt.posts.push(mp);
                }
                (None, None) => {
                    if fill.is_some() {
                        return Err("two postings without amount".to_string());
                    }
                    fill = Some(mp);
                }
            }
        }
        if !can_be_zero(&brack) {
            return Err("bracketed postings do not balance".to_string());
        }
        match fill {
            Some(f) => {
                for (c, x) in bneg(&rest) {
                    badd(balances.entry(f.acct.clone()).or_insert_with(Bal::new), &c, &x);
                    let mut g = f.clone();
                    g.amt = Amt { q: x, c };
                    g.filled = true;
                    mt.posts.push(g);
                }
                rest.clear();
            }
            None => {
                if !can_be_zero(&rest) {
                    return Err("real postings do not balance".to_string());
                }
            }
        }
        mt.posts.extend(virtuals);
        if !autos.is_empty() {
            let mut extra = vec![];
            for a in &autos {
                let snapshot = mt.clone();
                for p in mt.posts.iter_mut() {
                    if !a.query.matches(p, &snapshot) {
                        continue;
                    }
                    for ap in &a.posts {
                        let amt = match &ap.amt {
                            AutoAmt::Fixed(x) => x.clone(),
                            AutoAmt::Factor(f) => Amt { q: &p.amt.q * f, c: p.amt.c.clone() },
                            AutoAmt::Expr(e) => match e.eval(p, &snapshot) {
                                crate::expr::V::Num(n) => Amt { q: &p.amt.q * n, c: p.amt.c.clone() },
                                crate::expr::V::Money(x) => x,
                                x => return Err(format!("not an amount: {:?}", x)),
                            },
                        };
                        extra.push(MPost {
                            acct: ap.acct.clone(),
                            kind: ap.kind,
                            amt,
                            payee: p.payee.clone(),
                            tags: vec![],
                            auto: true,
                            filled: false,
                        });
                    }
                    for c in &a.comments {
                        p.tags.extend(c.tags());
                    }
                }
            }
            let mut ebrack = brack.clone();
            for e in &extra {
                match e.kind {
                    Kind::Real => badd(&mut rest, &e.amt.c, &e.amt.q),
                    Kind::Brack => badd(&mut ebrack, &e.amt.c, &e.amt.q),
                    Kind::Virt => (),
                }
            }
            if !can_be_zero(&rest) || !can_be_zero(&ebrack) {
                return Err("unbalanced by automated postings".to_string());
            }
            mt.posts.extend(extra);
        }
        if rest.len() == 2 {
            let v: Vec<(&String, &Q)> = rest.iter().collect();
            let one = |a: usize, b: usize| {
                (v[a].0.clone(), Amt { q: (v[b].1 / v[a].1).abs(), c: v[b].0.clone() })
            };
            m.prices.push(MPrice { date: t.date, alts: vec![one(0, 1), one(1, 0)] });
        }
        m.txns.push(mt);
    }
    Ok(m)
}

/// Everything named in a journal, under its declared name
pub fn names(j: &[Entry]) -> (BTreeSet<String>, BTreeSet<String>, BTreeSet<String>) {
    let entries = flat(j);
    let payee_dirs: Vec<&PayeeDir> =
        entries.iter().filter_map(|e| if let Entry::Payee(p) = e { Some(p) } else { None }).collect();
    let mut accounts = BTreeSet::new();
    let mut payees = BTreeSet::new();
    let mut commodities = BTreeSet::new();
    for e in entries {
        match e {
            Entry::Txn(t) => {
                payees.insert(resolve_payee(&payee_dirs, &payee_text(t)));
                for p in &t.posts {
                    accounts.insert(p.acct.clone());
                    for a in p.amt.iter().chain(p.bal.iter()) {
                        commodities.insert(a.c.clone());
                    }
                    if let Some(Cost::Unit(a)) | Some(Cost::Total(a)) = &p.cost {
                        commodities.insert(a.c.clone());
                    }
                }
            }
            Entry::Auto(a) => {
                for p in &a.posts {
                    accounts.insert(p.acct.clone());
                    if let AutoAmt::Fixed(x) = &p.amt {
                        commodities.insert(x.c.clone());
                    }
                }
            }
            Entry::Price(p) => {
                commodities.insert(p.c.clone());
                commodities.insert(p.price.c.clone());
            }
            Entry::Account(d) => {
                accounts.insert(d.name.clone());
            }
            Entry::Commodity(d) => {
                commodities.insert(d.name.clone());
            }
            Entry::Payee(d) => {
                payees.insert(d.name.clone());
            }
            _ => {}
        }
    }
    (accounts, payees, commodities)
}

/// Which postings a report is about
#[derive(Clone, Debug, Default)]
pub struct Sel {
    pub query: crate::expr::Query,
    pub begin: Option<Date>,
    pub end: Option<Date>,
    pub real: bool,
}
impl Sel {
    pub fn has(&self, t: &MTxn, p: &MPost) -> bool {
        (!self.real || p.kind == Kind::Real)
            && self.begin.map_or(true, |d| t.date >= d)
            && self.end.map_or(true, |d| t.date < d)
            && self.query.matches(p, t)
    }
}
pub fn select<'a>(m: &'a Model, s: &Sel) -> Vec<(&'a MTxn, Vec<&'a MPost>)> {
    m.txns
        .iter()
        .map(|t| (t, t.posts.iter().filter(|p| s.has(t, p)).collect::<Vec<_>>()))
        .filter(|x| !x.1.is_empty())
        .collect()
}
pub fn account_sums(m: &Model, s: &Sel) -> BTreeMap<String, Bal> {
    let mut r: BTreeMap<String, Bal> = BTreeMap::new();
    for (_, ps) in select(m, s) {
        for p in ps {
            badd(r.entry(p.acct.clone()).or_insert_with(Bal::new), &p.amt.c, &p.amt.q);
        }
    }
    r
}
pub fn total(sums: &BTreeMap<String, Bal>) -> Bal {
    sums.values().fold(Bal::new(), |a, b| bsum(&a, b))
}
pub fn one() -> Q {
    Q::one()
}
