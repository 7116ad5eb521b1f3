//! Journals with everything in them: transactions, automated transactions, prices and directives.
use crate::engine::Cx;
use crate::gen::*;
use crate::model::*;
use crate::render::*;
use std::collections::BTreeMap;

pub const ACCT_ALIASES: &[&str] =
    &["chk", "Tienda", "cash short", "x:y", "bolsillo", "wallet9", "Ωacct", "ALIAS:One", "Bank"];
pub const COMM_ALIASES: &[&str] = &["bucks", "¥", "Euros", "old gold", "acm", "F2", "pieces", "ñandúes"];
/// Declared payees and the patterns which lead to them; at most one matches a text
pub const PAYEE_DIRS: &[(&str, &[&str])] = &[
    ("Groceries Inc", &["^Grocery"]),
    ("ACME", &["ACME .*Inc", "^acme$"]),
    ("Coffee", &["[Cc]af[eé]"]),
    ("Brien", &["O'Brien"]),
    ("Landlord", &["^Rent \\d+$", "rented"]),
    ("Employer", &["(payday|salary)"]),
    ("Bakery", &["Baker$"]),
    ("Zoe", &["^Zo.$"]),
    ("Shop", &["shop \\d", "supermarket"]),
];

/// Whether a name may be written in other capitals
pub fn other_capitals(s: &str) -> Vec<String> {
    let mut v = vec![];
    for x in vec![s.to_lowercase(), s.to_uppercase()] {
        if x != s && x.to_lowercase() == s.to_lowercase() && x.chars().count() == s.chars().count() {
            v.push(x);
        }
    }
    // every other letter
    let mut up = false;
    let mixed: String = s
        .chars()
        .map(|c| {
            up = !up;
            if up {
                c.to_ascii_uppercase()
            } else {
                c.to_ascii_lowercase()
            }
        })
        .collect();
    if mixed != s && mixed.to_lowercase() == s.to_lowercase() && !v.contains(&mixed) {
        v.push(mixed);
    }
    v
}

#[derive(Clone)]
pub struct Rich {
    pub j: Vec<Entry>,
    /// other ways to write the names which are declared
    pub accts: BTreeMap<String, Vec<String>>,
    pub comms: BTreeMap<String, Vec<String>>,
}
impl Rich {
    pub fn aliased(&self, st: &Style, pct: u64) -> Style {
        let mut st = st.clone();
        st.accts = self.accts.clone();
        st.comms = self.comms.clone();
        st.alias_pct = pct;
        st
    }
}

fn spellings(cx: &mut Cx, name: &str, aliases: &[String]) -> Vec<String> {
    let mut v: Vec<String> = aliases.to_vec();
    for a in aliases {
        v.extend(other_capitals(a));
    }
    v.extend(other_capitals(name));
    cx.shuffle(&mut v);
    v
}
/// Declares some of the accounts and commodities, with aliases
pub fn directives(cx: &mut Cx, g: &G, pct: u64) -> Rich {
    let mut r = Rich { j: vec![], accts: BTreeMap::new(), comms: BTreeMap::new() };
    let mut pool: Vec<String> = ACCT_ALIASES.iter().map(|x| x.to_string()).collect();
    cx.shuffle(&mut pool);
    // some have many
    let many = cx.chance(15);
    let most = if many { 9 } else { 2 };
    let more = if many { 75 } else { 55 };
    let mut spare = 0;
    let mut names = g.accts.clone();
    names.extend(AUTO_ACCOUNTS.iter().map(|x| x.to_string()));
    if cx.chance(20) {
        names.push("Equity:Not used".to_string());
    }
    for a in names {
        if !cx.chance(pct) {
            continue;
        }
        let mut aliases = vec![];
        for _ in 0..cx.len(0, most, more) {
            aliases.push(pool.pop().unwrap_or_else(|| {
                spare += 1;
                format!("spare{}:{}", spare, spare)
            }));
        }
        let s = spellings(cx, &a, &aliases);
        if !s.is_empty() {
            r.accts.insert(a.clone(), s);
        }
        let note = if cx.chance(20) { Some("some note".to_string()) } else { None };
        r.j.push(Entry::Account(AccountDir { name: a, aliases, payees: vec![], note }));
    }
    let mut pool: Vec<String> = COMM_ALIASES.iter().map(|x| x.to_string()).collect();
    cx.shuffle(&mut pool);
    let mut names: Vec<String> = g.comms.iter().filter(|c| !c.is_empty()).cloned().collect();
    if cx.chance(20) {
        names.push("Unused".to_string());
    }
    for c in names {
        if !cx.chance(pct) {
            continue;
        }
        let mut aliases = vec![];
        for _ in 0..cx.len(0, most, more) {
            aliases.push(pool.pop().unwrap_or_else(|| {
                spare += 1;
                format!("spare{}", (b'a' + (spare % 26) as u8) as char).repeat(1 + spare / 26)
            }));
        }
        let s = spellings(cx, &c, &aliases);
        if !s.is_empty() {
            r.comms.insert(c.clone(), s);
        }
        let note = if cx.chance(20) { Some("a coin".to_string()) } else { None };
        r.j.push(Entry::Commodity(CommodityDir { name: c, aliases, note }));
    }
    r
}
pub fn payee_directives(cx: &mut Cx, pct: u64) -> Vec<Entry> {
    let mut v = vec![];
    for (name, pats) in PAYEE_DIRS {
        if cx.chance(pct) {
            let n = cx.range(0, pats.len() as i64) as usize;
            let note = if cx.chance(20) { Some("a note".to_string()) } else { None };
            v.push(Entry::Payee(PayeeDir {
                name: name.to_string(),
                aliases: pats[..n].iter().map(|x| x.to_string()).collect(),
                note,
            }));
        }
    }
    v
}
/// Puts entries at random places
pub fn scatter(cx: &mut Cx, j: &mut Vec<Entry>, more: Vec<Entry>) {
    for e in more {
        let at = cx.below(j.len() + 1);
        j.insert(at, e);
    }
}
pub struct Mix {
    pub autos: u64,
    pub asserts: u64,
    pub prices: usize,
    pub dirs: u64,
}
pub fn rich(cx: &mut Cx, g: &G, mix: &Mix) -> Rich {
    let mut txns = gen_txns(cx, g);
    let autos = cx.chance(mix.autos);
    let many = cx.chance(8);
    if cx.chance(if autos { mix.asserts / 2 } else { mix.asserts }) {
        let comms = g.comms.clone();
        add_assertions(cx, &mut txns, &comms, 30, 30);
    }
    let mut r = directives(cx, g, mix.dirs);
    let mut more = std::mem::take(&mut r.j);
    more.extend(payee_directives(cx, mix.dirs / 2));
    r.j = wrap_txns(&txns);
    if autos {
        // the payees of the directives count
        let mut k = r.j.clone();
        k.extend(more.iter().cloned());
        for a in gen_autos(cx, &without_asserted(g, &txns), &k, if many { 6 } else { 2 }) {
            let at = cx.below(r.j.len() + 1);
            r.j.insert(at, Entry::Auto(a));
        }
    }
    more.extend(gen_prices(cx, g, if many && mix.prices > 0 { mix.prices + 12 } else { mix.prices }).into_iter().map(Entry::Price));
    if cx.chance(15) {
        more.push(Entry::Tag("food".to_string()));
    }
    if cx.chance(30) {
        more.push(Entry::Comment("; 2020-01-01 not a transaction".to_string()));
    }
    cx.shuffle(&mut more);
    scatter(cx, &mut r.j, more);
    r
}
