//! Generators of journals and queries.
use crate::engine::Cx;
use crate::expr::*;
use crate::model::*;
use num::{BigInt, Signed, Zero};
use std::collections::BTreeMap;

pub const ACCOUNTS: &[&str] = &[
    "Assets:Bank",
    "Expenses:Food",
    "Income",
    "Assets:Bank:Checking",
    "Assets",
    "Assets2:Bank",
    "Expenses",
    "Expenses:Food:Café",
    "Assets:Bank:Savings account",
    "Liabilities:Credit Card",
    "Equity:Opening-Balances",
    "Income:Salary",
    "a:b:c:d:e",
    "a:b",
    "Assets:Bank2",
    "银行:现金",
    "Ñandú:ß:Straße",
    "Expenses:Food & Drink",
    "Assets:Cash (wallet)",
    "Expenses:Rent:2020",
    "a:b:c",
    "Expenses:F",
    "Z",
    "Expenses:Household:Kitchen and bathroom:Cleaning products",
    "Assets:Bank:Savings account:Año 2020",
];
pub const COMMODITIES: &[&str] = &[
    "USD", "EUR", "ACME", "$", "€", "Gold", "My coin", "Fund-A", "£", "Zeta", "B2B", "Ñu", "",
];
pub const DESCS: &[&str] = &[
    "Grocery store",
    "ACME Inc.",
    "Café Ñandú",
    "O'Brien & sons",
    "x",
    "Rent 2020",
    "shop 24/7",
    "100% sure",
    "payday",
    "Pay (daily)",
    "Ωmega = fun",
    "salary @work",
    "A long description, which does not fit in its column",
    "Compañía de Petróleos y Energía, Sociedad Anónima 银行银行",
    "exactly thirty-eight characters long..",
];
/// Descriptions of transactions with a payee of their own
pub const PLAIN_DESCS: &[&str] = &["bought something", "Viaje", "monthly thing", "q"];
pub const PAYEES: &[&str] = &["Pay Corp", "Zoë", "The Baker", "supermarket"];
pub const TAGS: &[&str] = &["food", "trip", "Trip2", "cañón", "x-1", "receipt_no", "Z"];
pub const KEYS: &[&str] = &["key", "Doc", "ref", "foodie", "trip"];
pub const VALUES: &[&str] = &["abc", "v one", "2020", "Ω", "food", "a-b"];
pub const PLAIN: &[&str] = &["just a comment", "food", "trip to Rome", "no tags here", "Ω x"];

/// A positive number with finitely many decimals
pub fn gen_q(cx: &mut Cx) -> Q {
    match cx.draw(20) {
        0..=5 => q(cx.range(1, 20)),
        6..=10 => qd(cx.range(1, 100000), 2),
        11..=12 => qd(cx.range(1, 99999), 1),
        13 => qd(cx.range(1, 99999), 3),
        14 => qd(cx.range(0, 2000) * 10 + 5, 3), // half cents
        15 => qd(cx.range(1, 99), 2),
        16 => qd(cx.range(1, 999999), 6),
        17 => {
            // large
            let mut n = BigInt::from(cx.range(1, 999_999_999));
            for _ in 0..cx.range(1, 3) {
                n = n * BigInt::from(1_000_000_000) + BigInt::from(cx.range(0, 999_999_999));
            }
            Q::new(n, BigInt::from(10).pow(cx.draw(4) as u32))
        }
        18 => {
            // many decimals
            let k = cx.range(8, 24) as usize;
            Q::new(BigInt::from(cx.range(1, 999_999_999)), num::pow(BigInt::from(10), k))
        }
        _ => q(cx.range(1, 1_000_000)),
    }
}
pub fn small_q(cx: &mut Cx) -> Q {
    match cx.draw(6) {
        0..=2 => q(cx.range(1, 50)),
        3..=4 => qd(cx.range(1, 9999), 2),
        _ => qd(cx.range(1, 99999), 3),
    }
}
pub fn signed(cx: &mut Cx, x: Q) -> Q {
    if cx.chance(45) {
        -x
    } else {
        x
    }
}

pub fn gen_date(cx: &mut Cx) -> Date {
    // few days, so that dates repeat and are next to each other
    match cx.draw(10) {
        0..=6 => Date::from_ymd(2020, 1, 28) + chrono::Duration::days(cx.range(0, 7)),
        7 => Date::from_ymd(2019, 12, 25) + chrono::Duration::days(cx.range(0, 14)),
        8 => match cx.draw(4) {
            0 | 1 => Date::from_ymd(2000, 1, 1) + chrono::Duration::days(cx.range(0, 7600)),
            2 => Date::from_ymd(1583, 1, 1) + chrono::Duration::days(cx.range(0, 160_000)),
            _ => Date::from_ymd(1996 + 4 * cx.range(0, 6) as i32, 2, 28) + chrono::Duration::days(cx.range(0, 2)),
        },
        _ => Date::from_ymd(2020, 2, 28) + chrono::Duration::days(cx.range(0, 2)),
    }
}

/// What journals are made of
#[derive(Clone, Debug)]
pub struct G {
    pub accts: Vec<String>,
    pub comms: Vec<String>,
    pub descs: Vec<String>,
    pub max_txns: usize,
    pub elide: u64,
    pub virt: u64,
    pub costs: u64,
    pub exchange: u64,
    pub tags: u64,
    pub payees: u64,
    pub small: bool,
    pub zero: u64,
    pub max_posts: usize,
    /// costs in the commodity of the posting itself
    pub same_cost: u64,
    /// many transactions
    pub big: bool,
}

// Names which are made up, unlike all those of the lists
const SYLLABLES: &[&str] = &["lor", "mip", "tusk", "vök", "xan", "qi", "бан", "ки", "口", "ψ", "zzot", "rum", "o", "9", "42", "jé"];
fn word(cx: &mut Cx, joins: &[&str], max: usize) -> String {
    let mut s = String::new();
    // few are very long
    let n = if max > 6 && cx.chance(25) { cx.range(12, 60) as usize } else { cx.len(1, max, 55) };
    for k in 0..n {
        if k > 0 {
            s.push_str(*cx.pick(joins));
        }
        let x = *cx.pick(SYLLABLES);
        if cx.chance(30) {
            s.push_str(&x.to_uppercase());
        } else {
            s.push_str(x);
        }
    }
    s
}
fn squeeze(s: &str) -> String {
    s.to_lowercase().split_whitespace().collect()
}
fn add_fresh(names: &mut Vec<String>, s: String) {
    if !names.iter().any(|x| squeeze(x) == squeeze(&s)) {
        names.push(s);
    }
}
pub fn fresh_account(cx: &mut Cx, names: &mut Vec<String>) {
    let joins = &["", "", "", " ", "-", "_", ".", " & ", "@", "+", "'", "#", "%", ")", ", ", " ;", ";", "|", " (", "*", "~"];
    let mut s = if !names.is_empty() && cx.chance(40) { format!("{}:", cx.pick(names)) } else { format!("{}", cx.pick(&["Lor", "mIp", "qi", "Бан", "口", "_"])) };
    if s.ends_with(':') && cx.chance(25) {
        // below a parent that is spelled alike
        let keep = 1 + cx.below(s.matches(':').count());
        let t: Vec<&str> = s.split(':').take(keep).collect();
        let t = t.join(":");
        s = format!("{}:", if cx.chance(50) { t.to_lowercase() } else { t.to_uppercase() });
    }
    for k in 0..cx.len(1, 6, 50) {
        if k > 0 {
            s.push(':');
        }
        let max = if cx.chance(10) { 20 } else { 4 };
        s.push_str(&word(cx, joins, max));
    }
    add_fresh(names, s);
}
pub fn fresh_commodity(cx: &mut Cx, names: &mut Vec<String>) {
    let s = format!("{}{}", cx.pick(&["Lor", "mip", "q", "Бан", "₿", "_", "NZ", "Tok", "bit", "value", "Rñ"]), word(cx, &["", "", "", " ", "-", "_", ".", "@", "&", "#", "="], 5));
    add_fresh(names, s);
}
pub fn fresh_desc(cx: &mut Cx, names: &mut Vec<String>) {
    let joins = &["", "", " ", " ", " ", "-", ", ", ".", " & ", "@", "+", "'", "#", "% ", ")", ": ", " = ", " (", "/"];
    let max = if cx.chance(20) { 20 } else { 5 };
    let s = word(cx, joins, max);
    add_fresh(names, s);
}

pub fn pick_some(cx: &mut Cx, pool: &[&str], lo: usize, hi: usize) -> Vec<String> {
    let n = cx.range(lo as i64, hi as i64) as usize;
    let mut idx: Vec<usize> = (0..pool.len()).collect();
    let mut r = vec![];
    for _ in 0..n.min(pool.len()) {
        // the first ones of the pool are the simplest
        let k = if cx.chance(50) { cx.below(idx.len()) } else { cx.below(idx.len().min(4)) };
        r.push(pool[idx.remove(k)].to_string());
    }
    r
}

pub fn gen_g(cx: &mut Cx) -> G {
    let big = cx.chance(2);
    let mut accts = if big { pick_some(cx, ACCOUNTS, 8, 25) } else { pick_some(cx, ACCOUNTS, 2, 7) };
    if cx.chance(12) {
        for _ in 0..cx.len(1, 8, 60) {
            fresh_account(cx, &mut accts);
        }
    }
    if big && cx.chance(40) {
        for _ in 0..cx.range(20, 90) {
            fresh_account(cx, &mut accts);
        }
    }
    let mut comms = pick_some(cx, COMMODITIES, 1, 4);
    if cx.chance(30) {
        comms.truncate(1);
    } else if cx.chance(8) {
        comms = pick_some(cx, COMMODITIES, 5, 12);
    }
    if comms.len() > 1 && cx.chance(10) {
        for _ in 0..cx.len(1, 3, 30) {
            fresh_commodity(cx, &mut comms);
        }
    }
    let mut descs = pick_some(cx, DESCS, 1, 4);
    if cx.chance(15) {
        for _ in 0..cx.len(1, 4, 40) {
            fresh_desc(cx, &mut descs);
        }
    }
    G {
        accts,
        comms,
        descs,
        max_txns: 6,
        elide: 40,
        virt: 15,
        costs: 20,
        exchange: 20,
        tags: 25,
        payees: 15,
        small: cx.chance(60),
        zero: 4,
        max_posts: 4,
        same_cost: 0,
        big,
    }
}

impl G {
    pub fn q(&self, cx: &mut Cx) -> Q {
        if self.small {
            small_q(cx)
        } else {
            gen_q(cx)
        }
    }
    /// A signed amount, sometimes zero
    pub fn sq(&self, cx: &mut Cx) -> Q {
        if cx.chance(self.zero) {
            return Q::zero();
        }
        let x = self.q(cx);
        signed(cx, x)
    }
    pub fn acct(&self, cx: &mut Cx) -> String {
        cx.pick(&self.accts).clone()
    }
    pub fn comm(&self, cx: &mut Cx) -> String {
        cx.pick(&self.comms).clone()
    }
    pub fn other_comm(&self, cx: &mut Cx, c: &str) -> Option<String> {
        let v: Vec<&String> = self.comms.iter().filter(|x| *x != c).collect();
        if v.is_empty() {
            None
        } else {
            Some((*cx.pick(&v)).clone())
        }
    }
}

pub fn gen_comment(cx: &mut Cx) -> Comment {
    match cx.draw(4) {
        0 => Comment::Plain(cx.pick(PLAIN).to_string()),
        1 | 2 => {
            let n = cx.len(1, 7, 35);
            let prefix = if cx.chance(30) { "see this " } else { "" };
            let mut tags = vec![];
            for _ in 0..n {
                tags.push(if cx.chance(6) { word(cx, &["", "-", "_", ".", " "], 4) } else { cx.pick(TAGS).to_string() });
            }
            Comment::Flags(prefix.to_string(), tags)
        }
        _ => {
            let key = if cx.chance(5) { word(cx, &["", "-", "_", ".", " ", " "], 4) } else { cx.pick(KEYS).to_string() };
            let value = if cx.chance(8) { word(cx, &["", " ", "-", ", ", ".", "; "], 8) } else if cx.chance(8) { String::new() } else { cx.pick(VALUES).to_string() };
            Comment::Kv(key, value)
        }
    }
}

/// Comments of a transaction and its postings; a key has one value in a transaction
pub fn add_comments(cx: &mut Cx, t: &mut Txn, pct: u64) {
    if cx.chance(pct) {
        t.header_comment = Some(gen_comment(cx));
    }
    if cx.chance(pct) {
        for _ in 0..cx.len(1, 8, 40) {
            t.comments.push(gen_comment(cx));
        }
    }
    for i in 0..t.posts.len() {
        if cx.chance(pct) {
            for _ in 0..cx.len(1, 8, 35) {
                let c = gen_comment(cx);
                t.posts[i].comments.push(c);
            }
        }
    }
    dedup_keys(t);
}
/// A key has one value in a transaction, and a flag is not a key
pub fn dedup_keys(t: &mut Txn) {
    let mut seen: Vec<String> = vec![];
    let mut fix = |c: &mut Comment| {
        if let Comment::Kv(k, v) = c {
            if seen.contains(k) {
                *c = Comment::Plain(format!("{} {}", k, v));
            } else {
                seen.push(k.clone());
            }
        }
    };
    if let Some(c) = t.header_comment.as_mut() {
        fix(c);
    }
    for c in t.comments.iter_mut() {
        fix(c);
    }
    for p in t.posts.iter_mut() {
        for c in p.comments.iter_mut() {
            fix(c);
        }
    }
}

/// The remainder of the real postings written so far
pub fn remainder(posts: &[Post]) -> Bal {
    let mut b = Bal::new();
    for p in posts {
        if p.kind == Kind::Real {
            if let Some(a) = &p.amt {
                let k = counted(a, &p.cost);
                badd(&mut b, &k.c, &k.q);
            }
        }
    }
    b
}

/// A transaction which balances
pub fn gen_txn(cx: &mut Cx, g: &G, id: usize) -> Txn {
    let mut posts: Vec<Post> = vec![];
    let n = if g.max_posts > 2 && cx.chance(3) { cx.range(5, 18) as usize } else { cx.len(1, g.max_posts, 35) };
    let c0 = g.comm(cx);
    let exchange = g.comms.len() > 1 && cx.chance(g.exchange);
    if exchange {
        // several commodities, not all of the same sign
        let c1 = g.other_comm(cx, &c0).unwrap();
        let (x, y) = (g.q(cx), g.q(cx));
        let a = g.acct(cx);
        let b = g.acct(cx);
        let flip = cx.chance(30);
        posts.push(Post::new(&a, Kind::Real, Some(Amt { q: if flip { -x.clone() } else { x.clone() }, c: c0.clone() })));
        posts.push(Post::new(&b, Kind::Real, Some(Amt { q: if flip { y } else { -y }, c: c1 })));
        if cx.chance(25) {
            let c2 = g.comm(cx);
            let x = g.sq(cx);
            let a = g.acct(cx);
            posts.push(Post::new(&a, Kind::Real, Some(Amt { q: x, c: c2 })));
        }
        if !can_be_zero(&remainder(&posts)) {
            let b = remainder(&posts);
            let (c, x) = b.iter().next().map(|(c, x)| (c.clone(), x.clone())).unwrap();
            let a = g.acct(cx);
            // makes this one cross over
            posts.push(Post::new(&a, Kind::Real, Some(Amt { q: -(x.clone() + x), c })));
        }
    } else {
        for _ in 0..n {
            let c = if cx.chance(75) { c0.clone() } else { g.comm(cx) };
            let a = g.acct(cx);
            let x = g.sq(cx);
            let mut p = Post::new(&a, Kind::Real, Some(Amt { q: x.clone(), c: c.clone() }));
            if cx.chance(g.costs) {
                let d = if cx.chance(g.same_cost) { Some(c.clone()) } else { g.other_comm(cx, &c) };
                if let Some(d) = d {
                    let u = g.q(cx);
                    if cx.chance(45) && !x.is_zero() {
                        p.cost = Some(Cost::Total(Amt { q: u, c: d }));
                    } else {
                        p.cost = Some(Cost::Unit(Amt { q: u, c: d }));
                    }
                }
            }
            posts.push(p);
        }
        if cx.chance(g.elide) {
            let a = g.acct(cx);
            posts.push(Post::new(&a, Kind::Real, None));
        } else {
            for (c, x) in bneg(&remainder(&posts)) {
                let a = g.acct(cx);
                if cx.chance(20) {
                    // in two parts
                    let part = g.sq(cx);
                    let b = g.acct(cx);
                    posts.push(Post::new(&b, Kind::Real, Some(Amt { q: part.clone(), c: c.clone() })));
                    posts.push(Post::new(&a, Kind::Real, Some(Amt { q: x - part, c })));
                } else {
                    posts.push(Post::new(&a, Kind::Real, Some(Amt { q: x, c })));
                }
            }
        }
    }
    if cx.chance(g.virt) {
        for _ in 0..cx.len(1, 7, 30) {
            let a = g.acct(cx);
            let c = g.comm(cx);
            let x = g.sq(cx);
            posts.push(Post::new(&a, Kind::Virt, Some(Amt { q: x, c })));
        }
    }
    if cx.chance(g.virt) {
        let c = g.comm(cx);
        let x = g.sq(cx);
        let a = g.acct(cx);
        let b = g.acct(cx);
        posts.push(Post::new(&a, Kind::Brack, Some(Amt { q: x.clone(), c: c.clone() })));
        posts.push(Post::new(&b, Kind::Brack, Some(Amt { q: -x, c })));
    }
    cx.shuffle(&mut posts);
    let mut t = Txn {
        date: gen_date(cx),
        desc: cx.pick(&g.descs).clone(),
        payee: None,
        header_comment: None,
        comments: vec![],
        posts,
        id,
    };
    if cx.chance(g.payees) {
        t.desc = cx.pick(PLAIN_DESCS).to_string();
        t.payee = Some(cx.pick(PAYEES).to_string());
    } else if cx.chance(2) {
        t.desc = String::new();
    }
    if g.tags > 0 {
        add_comments(cx, &mut t, g.tags);
    }
    t
}
pub fn gen_txns(cx: &mut Cx, g: &G) -> Vec<Txn> {
    let n = if g.big && g.max_txns > 3 { cx.range(15, 100) as usize } else { cx.len(1, g.max_txns, 70) };
    (0..n).map(|i| gen_txn(cx, g, i)).collect()
}
pub fn gen_prices(cx: &mut Cx, g: &G, max: usize) -> Vec<PriceLine> {
    let comms: Vec<String> = g.comms.iter().filter(|c| !c.is_empty()).cloned().collect();
    let mut v = vec![];
    if comms.len() < 2 {
        return v;
    }
    for _ in 0..cx.len(0, max, 60) {
        let c = cx.pick(&comms).clone();
        let others: Vec<&String> = comms.iter().filter(|x| **x != c).collect();
        let d = (*cx.pick(&others)).clone();
        v.push(PriceLine { date: gen_date(cx), c, price: Amt { q: g.q(cx), c: d } });
    }
    v
}

/// Balance assertions and assignments which hold, at some of the real postings. Those which are wrong
/// by a little are made by the caller.
pub fn add_assertions(cx: &mut Cx, txns: &mut Vec<Txn>, comms: &[String], pct: u64, assign_pct: u64) -> Vec<(usize, usize)> {
    let mut order: Vec<usize> = (0..txns.len()).collect();
    order.sort_by_key(|i| txns[*i].date);
    let mut balances: BTreeMap<String, Bal> = BTreeMap::new();
    let mut asserted = vec![];
    for i in order {
        let rest = remainder(&txns[i].posts);
        let fill: Option<(usize, String)> = txns[i]
            .posts
            .iter()
            .enumerate()
            .find(|(_, p)| p.kind == Kind::Real && p.amt.is_none())
            .map(|(k, p)| (k, p.acct.clone()));
        for k in 0..txns[i].posts.len() {
            let p = &mut txns[i].posts[k];
            if p.kind != Kind::Real || p.amt.is_none() {
                continue;
            }
            let a = p.amt.clone().unwrap();
            let b = balances.entry(p.acct.clone()).or_insert_with(Bal::new);
            badd(b, &a.c, &a.q);
            // a posting after the one which is filled, to the same account, would be ambiguous
            let ambiguous = fill.as_ref().map_or(false, |f| f.0 < k && f.1 == p.acct);
            if ambiguous || !cx.chance(pct) {
                continue;
            }
            if p.cost.is_none() && cx.chance(assign_pct) {
                p.bal = Some(Amt { q: b.get(&a.c).cloned().unwrap_or_else(Q::zero), c: a.c.clone() });
                p.amt = None;
                asserted.push((i, k));
            } else {
                let c = if cx.chance(75) { a.c.clone() } else { cx.pick(comms).clone() };
                p.bal = Some(Amt { q: b.get(&c).cloned().unwrap_or_else(Q::zero), c });
                asserted.push((i, k));
            }
        }
        if let Some((_, acct)) = fill {
            let b = balances.entry(acct).or_insert_with(Bal::new);
            for (c, x) in bneg(&rest) {
                badd(b, &c, &x);
            }
        }
    }
    asserted
}

// ---------------------------------------------------------------- queries

fn random_case(cx: &mut Cx, s: &str) -> String {
    match cx.draw(4) {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        _ => s
            .chars()
            .map(|c| if cx.chance(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}
fn regex_text(r: &str) -> bool {
    let low = r.to_lowercase();
    !(r.is_empty()
        || r != r.trim()
        || r.contains('/')
        || r.contains('"')
        || r.contains('\'')
        || r.contains('=')
        || r.starts_with(|c| "-@%/".contains(c))
        || low == "and"
        || low == "or"
        || low == "expr")
}
/// A regular expression related to one of the names; it has no '/', and does not start with - @ % /
pub fn gen_regex(cx: &mut Cx, names: &[String], case: bool) -> String {
    let r = gen_regex_(cx, names, case);
    cx.recent.push(r.clone());
    r
}
/// One which was used before, with a small change
fn near(cx: &mut Cx, r: &str) -> String {
    let mut c: Vec<char> = r.chars().collect();
    match cx.draw(6) {
        0 => (),
        1 => {
            if c.first() == Some(&'^') {
                c.remove(0);
            } else {
                c.insert(0, '^');
            }
        }
        2 => {
            if c.last() == Some(&'$') {
                c.pop();
            } else {
                c.push('$');
            }
        }
        3 => return if r.contains('\\') { r.to_string() } else { random_case(cx, r) },
        4 => {
            let at = cx.below(c.len());
            if c[at].is_alphanumeric() {
                c[at] = *cx.pick(&['.', 'a', 'e', 's', 'x']);
            }
        }
        _ => {
            let at = cx.below(c.len());
            if c[at].is_alphanumeric() {
                c.remove(at);
            }
        }
    }
    c.into_iter().collect()
}
fn gen_regex_(cx: &mut Cx, names: &[String], case: bool) -> String {
    for _ in 0..5 {
        if !cx.recent.is_empty() && cx.chance(20) {
            let old = cx.recent.clone();
            let old = cx.pick(&old).clone();
            let r = near(cx, &old);
            // a regular expression which is used with and without case is not changed
            if regex_text(&r) && regex::Regex::new(&r).is_ok() {
                return r;
            }
        }
        let name = cx.pick(names).clone();
        let chars: Vec<char> = name.chars().collect();
        if chars.is_empty() {
            continue;
        }
        let sub = |cx: &mut Cx| -> String {
            let a = cx.below(chars.len());
            let n = 1 + cx.below(chars.len() - a);
            chars[a..a + n].iter().collect()
        };
        let r = match cx.draw(10) {
            0..=3 => regex::escape(sub(cx).trim()),
            4 => regex::escape(&name),
            5 => {
                let k = 1 + cx.below(chars.len());
                format!("^{}", regex::escape(chars[..k].iter().collect::<String>().trim()))
            }
            6 => {
                let k = cx.below(chars.len());
                format!("{}$", regex::escape(chars[k..].iter().collect::<String>().trim()))
            }
            7 => {
                let (a, b) = (regex::escape(sub(cx).trim()), regex::escape(sub(cx).trim()));
                format!("({}|{})", a, b)
            }
            8 => {
                let (a, b) = (regex::escape(sub(cx).trim()), regex::escape(sub(cx).trim()));
                format!("{}.*{}", a, b)
            }
            _ => {
                let n = sub(cx);
                let s: Vec<char> = n.trim().chars().collect();
                if s.is_empty() {
                    continue;
                }
                let k = cx.below(s.len());
                let pre: String = s[..k].iter().collect();
                let post: String = s[k + 1..].iter().collect();
                format!("{}.{}", regex::escape(&pre), regex::escape(&post))
            }
        };
        // regex::escape escapes - and others; what is left must not look like something else
        let r = if case && !r.contains('\\') { random_case(cx, &r) } else { r };
        let r = r.trim().to_string();
        if regex_text(&r) {
            return r;
        }
    }
    "a".to_string()
}

/// Names to build queries from
pub struct Vocab {
    pub accts: Vec<String>,
    pub payees: Vec<String>,
    pub tags: Vec<String>,
    pub values: Vec<String>,
    pub notes: Vec<String>,
    pub dates: Vec<Date>,
    pub amounts: Vec<Q>,
    /// the only commodity, or None if there are several
    pub single: Option<String>,
}
pub fn vocab(m: &Model) -> Vocab {
    let mut v = Vocab {
        accts: vec![],
        payees: vec![],
        tags: vec![],
        values: vec![],
        notes: vec![],
        dates: vec![],
        amounts: vec![],
        single: None,
    };
    let mut comms = std::collections::BTreeSet::new();
    for t in &m.txns {
        v.dates.push(t.date);
        for n in &t.notes {
            // the space after the colon may be written or not
            v.notes.extend(n.split(": ").map(|x| x.to_string()));
        }
        for p in &t.posts {
            v.accts.push(p.acct.clone());
            v.payees.push(p.payee.clone());
            for (k, x) in &p.tags {
                v.tags.push(k.clone());
                if let Some(x) = x {
                    v.values.push(x.clone());
                }
            }
            v.amounts.push(p.amt.q.clone());
            comms.insert(p.amt.c.clone());
        }
    }
    if v.accts.is_empty() {
        v.accts.push("Assets".to_string());
        v.payees.push("x".to_string());
        v.dates.push(Date::from_ymd(2020, 1, 1));
    }
    if v.tags.is_empty() {
        v.tags.push("food".to_string());
    }
    if v.values.is_empty() {
        v.values.push("abc".to_string());
    }
    if v.notes.is_empty() {
        v.notes.push("food".to_string());
    }
    v.amounts.retain(|x| finite(x));
    if v.amounts.is_empty() {
        v.amounts.push(q(1));
    }
    if comms.len() == 1 {
        v.single = comms.into_iter().next();
    }
    v
}
pub fn finite(x: &Q) -> bool {
    let mut d = x.denom().clone();
    for p in [2, 5].iter() {
        let p = BigInt::from(*p);
        while (&d % &p).is_zero() {
            d = d / &p;
        }
    }
    d.abs() == BigInt::from(1)
}

fn lit(cx: &mut Cx, v: &Vocab) -> Q {
    match cx.draw(4) {
        0 => q(cx.range(0, 12)),
        1 => qd(cx.range(0, 5000), 2),
        _ => cx.pick(&v.amounts).abs(),
    }
}
pub fn gen_num(cx: &mut Cx, v: &Vocab, depth: u32) -> E {
    if depth == 0 || cx.chance(30) {
        return E::Num(lit(cx, v));
    }
    match cx.draw(7) {
        0 => E::Neg(Box::new(gen_num(cx, v, depth - 1))),
        1 => E::Abs(Box::new(gen_num(cx, v, depth - 1))),
        2 => E::Bin(Op::Add, Box::new(gen_num(cx, v, depth - 1)), Box::new(gen_num(cx, v, depth - 1))),
        3 => E::Bin(Op::Sub, Box::new(gen_num(cx, v, depth - 1)), Box::new(gen_num(cx, v, depth - 1))),
        4 | 5 => E::Bin(Op::Mul, Box::new(gen_num(cx, v, depth - 1)), Box::new(gen_num(cx, v, depth - 1))),
        _ => E::Bin(Op::Div, Box::new(gen_num(cx, v, depth - 1)), Box::new(E::Num(q(cx.range(1, 12))))),
    }
}
/// Amounts: of the posting or stated, all of one commodity
pub fn gen_money(cx: &mut Cx, v: &Vocab, depth: u32) -> E {
    if depth == 0 || cx.chance(25) {
        if let Some(c) = &v.single {
            if !c.is_empty() && cx.chance(50) {
                let x = lit(cx, v);
                return E::Money(Amt { q: x, c: c.clone() });
            }
        }
        return E::Amount;
    }
    match cx.draw(8) {
        0 => E::Neg(Box::new(gen_money(cx, v, depth - 1))),
        1 => E::Abs(Box::new(gen_money(cx, v, depth - 1))),
        2 | 3 => E::Bin(Op::Add, Box::new(gen_money(cx, v, depth - 1)), Box::new(gen_money(cx, v, depth - 1))),
        4 => E::Bin(Op::Sub, Box::new(gen_money(cx, v, depth - 1)), Box::new(gen_money(cx, v, depth - 1))),
        5 => E::Bin(Op::Mul, Box::new(gen_money(cx, v, depth - 1)), Box::new(gen_num(cx, v, depth - 1))),
        6 => E::Bin(Op::Mul, Box::new(gen_num(cx, v, depth - 1)), Box::new(gen_money(cx, v, depth - 1))),
        _ => E::Bin(Op::Div, Box::new(gen_money(cx, v, depth - 1)), Box::new(E::Num(q(cx.range(1, 12))))),
    }
}
fn cmp_op(cx: &mut Cx) -> Op {
    *cx.pick(&[Op::Gt, Op::Lt, Op::Ge, Op::Le, Op::Eq, Op::Ne])
}
pub fn gen_bool(cx: &mut Cx, v: &Vocab, depth: u32, any: bool) -> E {
    if depth > 0 && cx.chance(55) {
        return match cx.draw(6) {
            0 | 1 => {
                E::Bin(Op::And, Box::new(gen_bool(cx, v, depth - 1, any)), Box::new(gen_bool(cx, v, depth - 1, any)))
            }
            2 | 3 => {
                E::Bin(Op::Or, Box::new(gen_bool(cx, v, depth - 1, any)), Box::new(gen_bool(cx, v, depth - 1, any)))
            }
            4 => E::Not(Box::new(gen_bool(cx, v, depth - 1, any))),
            _ if any => E::Any(Box::new(gen_bool(cx, v, depth - 1, any))),
            _ => E::Not(Box::new(gen_bool(cx, v, depth - 1, any))),
        };
    }
    let d = depth.max(1);
    match cx.draw(12) {
        0..=2 => {
            let op = cmp_op(cx);
            E::Bin(op, Box::new(gen_money(cx, v, d)), Box::new(gen_num(cx, v, d)))
        }
        3 => {
            let op = cmp_op(cx);
            E::Bin(op, Box::new(gen_num(cx, v, d)), Box::new(gen_money(cx, v, d)))
        }
        4 => {
            let op = cmp_op(cx);
            E::Bin(op, Box::new(gen_money(cx, v, d)), Box::new(gen_money(cx, v, d)))
        }
        5 => {
            let op = cmp_op(cx);
            E::Bin(op, Box::new(gen_num(cx, v, d)), Box::new(gen_num(cx, v, d)))
        }
        6 => E::Match(Box::new(E::Account), gen_regex(cx, &v.accts, false)),
        7 => E::Match(Box::new(E::Payee), gen_regex(cx, &v.payees, false)),
        8 => {
            let op = cmp_op(cx);
            let d = *cx.pick(&v.dates) + chrono::Duration::days(cx.range(-1, 1));
            if cx.chance(80) {
                E::Bin(op, Box::new(E::Date), Box::new(E::ToDate(d)))
            } else {
                E::Bin(op, Box::new(E::ToDate(d)), Box::new(E::Date))
            }
        }
        9 => E::HasTag(Box::new(E::Re(gen_regex(cx, &v.tags, false)))),
        10 => {
            let t = if cx.chance(50) {
                E::Tag(Box::new(E::Re(gen_regex(cx, &v.tags, false))))
            } else {
                {
                    let name = cx.pick(&v.tags).clone();
                    let name = match cx.draw(12) {
                        0 => name.to_lowercase(),
                        1 => name.to_uppercase(),
                        2 => name.chars().take(2).collect(),
                        _ => name,
                    };
                    E::Tag(Box::new(E::Str(name)))
                }
            };
            if cx.chance(50) {
                E::Match(Box::new(t), gen_regex(cx, &v.values, false))
            } else {
                let op = if cx.chance(30) { Op::Ne } else { Op::Eq };
                E::Bin(op, Box::new(t), Box::new(E::Str(cx.pick(&v.values).clone())))
            }
        }
        _ => E::Match(Box::new(E::Note), gen_regex(cx, &v.notes, false).trim_end_matches('$').to_string()),
    }
}

/// Whether an expression has amounts of several commodities in one operation, or is too big
pub fn gen_query(cx: &mut Cx, v: &Vocab, max: usize, exprs: bool) -> Query {
    let n = cx.len(1, max, 45);
    let mut terms = vec![];
    for k in 0..n {
        let j = if k == 0 { Join::Nothing } else { *cx.pick(&[Join::Nothing, Join::And, Join::And, Join::Or]) };
        let term = match cx.draw(if exprs { 9 } else { 7 }) {
            // only in small letters do these words mean something else
            0 if cx.chance(5) => Term::Word(cx.pick(&["Or", "And", "AND", "Expr", "a nd"]).to_string()),
            0..=2 => Term::Word(gen_regex(cx, &v.accts, true)),
            3 => Term::Slash(gen_regex(cx, &v.accts, false)),
            4 | 5 => Term::Payee(gen_regex(cx, &v.payees, true)),
            6 => Term::Tag(gen_regex(cx, &v.tags, true)),
            _ => Term::Expr(gen_bool(cx, v, 1, true)),
        };
        terms.push((j, term));
    }
    Query { terms }
}
pub fn gen_sel(cx: &mut Cx, v: &Vocab, exprs: bool) -> Sel {
    let mut s = Sel::default();
    if cx.chance(55) {
        s.query = gen_query(cx, v, 3, exprs);
    }
    if cx.chance(30) {
        s.begin = Some(*cx.pick(&v.dates) + chrono::Duration::days(cx.range(-1, 1)));
    }
    if cx.chance(30) {
        s.end = Some(*cx.pick(&v.dates) + chrono::Duration::days(cx.range(-1, 1)));
    }
    s.real = cx.chance(15);
    s
}
/// The options of a selection, and then the query
pub fn sel_args(cx: &mut Cx, s: &Sel) -> Vec<String> {
    let mut v = vec![];
    let mut dates = vec![];
    if let Some(d) = s.begin {
        dates.push(("-b", "--begin", d));
    }
    if let Some(d) = s.end {
        dates.push(("-e", "--end", d));
    }
    for (a, b, d) in dates {
        let t = write_cli_date(cx, d);
        match cx.draw(3) {
            0 => {
                v.push(b.to_string());
                v.push(t);
            }
            1 => {
                v.push(a.to_string());
                v.push(t);
            }
            _ => v.push(format!("{}={}", b, t)),
        }
    }
    if s.real {
        v.push("--real".to_string());
    }
    v.extend(s.query.args(cx, &mut |_, c| c.to_string()));
    v
}

// ---------------------------------------------------------------- automated transactions

pub const AUTO_ACCOUNTS: &[&str] = &["Budget:Food", "Auto", "Savings:Goal", "Tax:VAT"];

fn auto_value(cx: &mut Cx, v: &Vocab) -> E {
    if cx.chance(50) {
        gen_money(cx, v, 2)
    } else {
        gen_num(cx, v, 2)
    }
}
/// Automated transactions which keep the balance: a virtual posting, or pairs
pub fn gen_auto(cx: &mut Cx, g: &G, v: &Vocab, tags: bool, exprs: bool) -> Auto {
    let mut query = gen_query(cx, v, 2, exprs);
    for (_, t) in query.terms.iter_mut() {
        let bad = match t {
            Term::Tag(_) => tags,
            Term::Expr(e) => has(e, &|e| matches!(e, E::Any(_))) || (tags && has(e, &|e| matches!(e, E::HasTag(_) | E::Tag(_)))),
            _ => false,
        };
        // an expression is stripped of its double quotes, and spaces separate
        if bad {
            *t = Term::Word(gen_regex(cx, &v.accts, true));
        }
    }
    let mut a = Auto { query, comments: vec![], posts: vec![] };
    if tags && cx.chance(60) {
        for _ in 0..cx.len(1, 2, 30) {
            a.comments.push(match cx.draw(3) {
                0 => Comment::Flags(String::new(), vec![cx.pick(&["auto-1", "q2"]).to_string()]),
                1 => Comment::Kv("autokey".to_string(), cx.pick(VALUES).to_string()),
                _ => Comment::Plain("by the way".to_string()),
            });
        }
        let mut keys = 0;
        a.comments.retain(|c| match c {
            Comment::Kv(..) => {
                keys += 1;
                keys == 1
            }
            _ => true,
        });
    }
    let comms: Vec<String> = g.comms.iter().filter(|c| !c.is_empty()).cloned().collect();
    for _ in 0..cx.len(1, 6, 30) {
        let amt = match cx.draw(3) {
            0 => AutoAmt::Factor(signed_dec(cx)),
            1 if !comms.is_empty() => {
                let x = g.q(cx);
                AutoAmt::Fixed(Amt { q: signed(cx, x), c: cx.pick(&comms).clone() })
            }
            _ => AutoAmt::Expr(auto_value(cx, v)),
        };
        let acct = if cx.chance(60) { cx.pick(AUTO_ACCOUNTS).to_string() } else { g.acct(cx) };
        let kind = *cx.pick(&[Kind::Virt, Kind::Virt, Kind::Real, Kind::Brack]);
        a.posts.push(AutoPost { acct, kind, amt: amt.clone() });
        if kind != Kind::Virt {
            let acct = cx.pick(AUTO_ACCOUNTS).to_string();
            let amt = match amt {
                AutoAmt::Factor(f) => AutoAmt::Factor(-f),
                AutoAmt::Fixed(a) => AutoAmt::Fixed(Amt { q: -a.q, c: a.c }),
                AutoAmt::Expr(e) => AutoAmt::Expr(E::Neg(Box::new(e))),
            };
            a.posts.push(AutoPost { acct, kind, amt });
        }
    }
    a
}
fn signed_dec(cx: &mut Cx) -> Q {
    let x = match cx.draw(3) {
        0 => qd(cx.range(1, 30), 1),
        1 => q(cx.range(1, 3)),
        _ => qd(cx.range(1, 300), 2),
    };
    signed(cx, x)
}
/// Whether some part of an expression is so
pub fn has(e: &E, f: &dyn Fn(&E) -> bool) -> bool {
    if f(e) {
        return true;
    }
    match e {
        E::Neg(x) | E::Not(x) | E::Abs(x) | E::Any(x) | E::HasTag(x) | E::Tag(x) | E::Match(x, _) => has(x, f),
        E::Bin(_, a, b) => has(a, f) || has(b, f),
        _ => false,
    }
}
/// The accounts which automated transactions may use: an assertion is about the postings which are
/// written, so that automated ones should not change the balances which are asserted
pub fn without_asserted(g: &G, txns: &[Txn]) -> G {
    let mut g = g.clone();
    g.accts.retain(|a| !txns.iter().any(|t| t.posts.iter().any(|p| p.bal.is_some() && p.acct == *a)));
    if g.accts.is_empty() {
        g.accts = AUTO_ACCOUNTS.iter().map(|x| x.to_string()).collect();
    }
    g
}
pub fn gen_autos(cx: &mut Cx, g: &G, j: &[Entry], max: usize) -> Vec<Auto> {
    let m = match evaluate(j, true) {
        Ok(m) => m,
        Err(_) => return vec![],
    };
    let v = vocab(&m);
    let n = if max > 6 { cx.range(6, max as i64) as usize } else { cx.len(1, max, 40) };
    let tags = cx.chance(40);
    let exprs = cx.chance(60);
    (0..n).map(|_| gen_auto(cx, g, &v, tags, exprs)).collect()
}
