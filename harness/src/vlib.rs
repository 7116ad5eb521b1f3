#![allow(dead_code)]
//! C26 to C28: the types of the library.
mod engine;
mod exec;
mod rates;

use chrono::{Duration, NaiveDate};
use dinero::models::{conversion, Account, Balance, Currency, HasName, Money, Origin, Payee, Price};
use dinero::List;
use engine::{Cx, Prop, Res};
use num::{BigInt, BigRational, One, Signed, Zero};
use regex::Regex;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type Q = BigRational;

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    match e.downcast_ref::<String>() {
        Some(s) => s.clone(),
        None => e.downcast_ref::<&str>().unwrap_or(&"?").to_string(),
    }
}

/// A panic inside the library, where the property gives it a result, is a violation
fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("{}: the library panicked: {}", what, panic_text(e)))
}

fn q(n: i64, d: i64) -> Q {
    Q::new(BigInt::from(n), BigInt::from(d))
}

fn number(cx: &mut Cx) -> Q {
    match cx.below(8) {
        0 => q(cx.range(-3, 3), 1),
        1 => q(cx.range(-1000, 1000), 100),
        2 => q(cx.range(-20, 20), cx.range(1, 12)),
        3 => q(cx.range(-5, 5) * 5, 1000),
        4 => q(cx.range(-4_000_000_000_000_000, 4_000_000_000_000_000), 1000),
        5 => {
            let a = q(cx.range(-1_000_000_000_000_000_000, 1_000_000_000_000_000_000), 1);
            let b = q(cx.range(1, 1_000_000_000_000_000_000), cx.range(1, 1_000_000_000_000));
            a * b
        }
        6 => {
            // one half of the last digit, or very near to it
            let d = cx.range(0, 8) as usize;
            let ten = num::pow(BigInt::from(10), d);
            let half = Q::new(BigInt::from(cx.range(-40, 40) * 2 + 1), ten * BigInt::from(2));
            match cx.below(3) {
                0 => half,
                1 => half + q(1, 1_000_000_000_000),
                _ => half - q(1, 1_000_000_000_000),
            }
        }
        _ => Q::zero(),
    }
}

// ------------------------------------------------------------------------------------------ C26

type Model = BTreeMap<String, Q>;

fn clean(m: &Model) -> Model {
    m.iter().filter(|x| !x.1.is_zero()).map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn observe(b: &Balance) -> Result<Model, String> {
    let mut r = Model::new();
    for (k, m) in b.iter() {
        if m.is_zero() {
            if !m.get_amount().is_zero() {
                return Err(format!("{:?} says it is zero", m));
            }
            continue;
        }
        let k = match k {
            None => return Err(format!("a balance has {:?} under no commodity", m)),
            Some(k) => k.get_name().to_string(),
        };
        match m.get_commodity() {
            Some(c) if c.get_name() == k => {}
            _ => return Err(format!("a balance has {:?} under {}", m, k)),
        }
        r.insert(k, m.get_amount());
    }
    Ok(r)
}

fn show(m: &Model) -> String {
    m.iter().map(|(k, v)| format!("{} {}", v, k)).collect::<Vec<_>>().join(" + ")
}

/// What the library prints for an amount: halves away from zero
fn printed(v: &Q, precision: usize, name: &str) -> String {
    let ten = num::pow(BigInt::from(10), precision);
    let scaled: Q = v.abs() * Q::from(ten) * q(2, 1) + Q::one();
    let n: BigInt = (scaled.numer() / scaled.denom()) / BigInt::from(2);
    let mut s = n.to_string();
    while s.len() < precision + 1 {
        s.insert(0, '0');
    }
    let cut = s.len() - precision;
    let body = if precision == 0 { s } else { format!("{}.{}", &s[..cut], &s[cut..]) };
    format!("{}{} {}", if v.is_negative() && !n.is_zero() { "-" } else { "" }, body, name)
}

fn c26(cx: &mut Cx) -> Res {
    let more: Vec<String> = (0..20).map(|k| format!("C{}", k)).collect();
    let mut names = vec!["EUR", "USD", "eur", "$", "AAPL inc", "€", "a"];
    let many = cx.chance(8);
    if many {
        names.extend(more.iter().map(|x| x.as_str()));
    }
    let n = 1 + cx.below(names.len());
    let mut currencies: Vec<Rc<Currency>> = vec![];
    let mut precisions = vec![];
    for k in 0..n {
        let mut c = Currency::from(names[k]);
        let mut p = 2;
        if cx.chance(60) {
            p = match cx.below(8) {
                0 => 0,
                1 => 1,
                7 => 25,
                x => x,
            };
            lib("set_precision", || c.set_precision(p))?;
        }
        precisions.push(p);
        currencies.push(Rc::new(c));
    }
    let mut log = vec![];
    // pool of values with their models
    let mut moneys: Vec<(Money, Option<String>, Q)> = vec![(Money::new(), None, Q::zero())];
    let mut bals: Vec<(Balance, Model)> = vec![(Balance::new(), Model::new())];
    if many {
        // balances in most of the commodities, of one sign or of both
        for _ in 0..2 {
            let sign = cx.below(4);
            let odd = cx.below(n);
            let (mut b, mut want) = (Balance::new(), Model::new());
            for k in 0..n {
                let v = number(cx).abs();
                let v = match sign {
                    0 => v,
                    1 => -v,
                    2 if k == odd => -v,
                    2 => v,
                    _ if k == odd => v,
                    _ => -v,
                };
                let m = Money::from((currencies[k].clone(), v.clone()));
                b = lib("+", || b + Balance::from(m))?;
                want.insert(names[k].to_string(), v);
            }
            log.push(format!("b{} = {}", bals.len(), show(&want)));
            bals.push((b, clean(&want)));
        }
        // two of them which are equal but for one commodity, or altogether
        let (mut b, mut want) = bals[1].clone();
        if cx.below(2) == 0 {
            let k = cx.below(n);
            let v = number(cx);
            let m = Money::from((currencies[k].clone(), v.clone()));
            b = lib("+", || b + Balance::from(m))?;
            *want.entry(names[k].to_string()).or_insert(Q::zero()) += v;
        }
        log.push(format!("b{} = {}", bals.len(), show(&want)));
        bals.push((b, clean(&want)));
        cx.label("many commodities");
    }
    let steps = cx.len(3, 30, 88);
    let mut kinds = BTreeSet::new();
    for _ in 0..steps {
        let op = cx.below(16);
        kinds.insert(op);
        match op {
            0 | 1 | 2 | 3 => {
                // another amount
                let k = cx.below(n);
                let v = number(cx);
                let m = Money::from((currencies[k].clone(), v.clone()));
                log.push(format!("m{} = {} {}", moneys.len(), v, names[k]));
                let text = lib("printing", || format!("{}", m))?;
                let want = printed(&v, precisions[k], names[k]);
                if text != want {
                    return Err(format!("{} {} with precision {} prints as {:?} instead of {:?}", v, names[k], precisions[k], text, want));
                }
                if m.is_zero() != v.is_zero()
                    || m.is_positive() != v.is_positive()
                    || m.is_negative() != v.is_negative()
                    || m.get_amount() != v
                    || m.abs().get_amount() != v.abs()
                    || m.get_commodity().as_ref().map(|c| c.get_name()) != Some(names[k])
                {
                    return Err(format!("{:?}: sign, amount, absolute value or commodity are wrong", m));
                }
                moneys.push((m, Some(names[k].to_string()), v));
            }
            4 | 5 => {
                // negation, product, quotient of an amount
                let i = cx.below(moneys.len());
                let (m, c, v) = moneys[i].clone();
                let f = number(cx);
                let (r, want) = match cx.below(3) {
                    0 => (lib("-", || -m.clone())?, -v.clone()),
                    1 => (lib("*", || m.clone() * f.clone())?, &v * &f),
                    _ if f.is_zero() => continue,
                    _ => (lib("/", || m.clone() / f.clone())?, &v / &f),
                };
                log.push(format!("m{} = m{} -, *, / {}: {}", moneys.len(), i, f, want));
                if r.get_amount() != want || r.get_commodity().map(|x| x.get_name().to_string()) != c {
                    return Err(format!("{:?} negated, or times or over {}, is {:?}: expected {}", m, f, r, want));
                }
                moneys.push((r, c, want));
            }
            6 | 7 | 8 => {
                // sum and difference of amounts
                let (i, j) = (cx.below(moneys.len()), cx.below(moneys.len()));
                let minus = cx.chance(50);
                let (a, b) = (moneys[i].clone(), moneys[j].clone());
                let r = if minus {
                    lib("-", || a.0.clone() - b.0.clone())?
                } else {
                    lib("+", || a.0.clone() + b.0.clone())?
                };
                let mut want = Model::new();
                for (k, x, s) in vec![(a.1, a.2, false), (b.1, b.2, minus)] {
                    if let Some(k) = k {
                        let e = want.entry(k).or_insert(Q::zero());
                        *e += if s { -x } else { x };
                    }
                }
                log.push(format!("b{} = m{} {} m{}", bals.len(), i, if minus { "-" } else { "+" }, j));
                bals.push((r, clean(&want)));
            }
            9 => {
                let i = cx.below(moneys.len());
                let (m, c, v) = moneys[i].clone();
                let mut want = Model::new();
                if let Some(c) = c {
                    want.insert(c, v);
                }
                log.push(format!("b{} = balance of m{}", bals.len(), i));
                bals.push((lib("Balance::from", || Balance::from(m.clone()))?, clean(&want)));
            }
            10 => {
                let i = cx.below(bals.len());
                let want = bals[i].1.iter().map(|(k, v)| (k.clone(), -v.clone())).collect();
                let b = bals[i].0.clone();
                log.push(format!("b{} = - b{}", bals.len(), i));
                bals.push((lib("-", || -b)?, want));
            }
            11 | 12 | 13 => {
                let (i, j) = (cx.below(bals.len()), cx.below(bals.len()));
                let minus = cx.chance(50);
                let (a, b) = (bals[i].clone(), bals[j].clone());
                let (x, y) = (a.0.clone(), b.0.clone());
                let r = if minus { lib("-", || x - y)? } else { lib("+", || x + y)? };
                let mut want = a.1.clone();
                for (k, v) in b.1 {
                    let e = want.entry(k).or_insert(Q::zero());
                    *e += if minus { -v } else { v };
                }
                log.push(format!("b{} = b{} {} b{}", bals.len(), i, if minus { "-" } else { "+" }, j));
                bals.push((r, clean(&want)));
            }
            14 => {
                // order and equality of amounts
                let (i, j) = (cx.below(moneys.len()), cx.below(moneys.len()));
                let (a, b) = (moneys[i].clone(), moneys[j].clone());
                let same = a.1.is_none() || b.1.is_none() || a.1 == b.1;
                let eq = lib("==", || a.0 == b.0)?;
                if eq != (same && a.2 == b.2) {
                    return Err(format!("{:?} == {:?} is {}", a.0, b.0, eq));
                }
                if same {
                    let want = a.2.cmp(&b.2);
                    let got = lib("cmp", || a.0.cmp(&b.0))?;
                    let lt = lib("<", || a.0 < b.0)?;
                    let ge = lib(">=", || a.0 >= b.0)?;
                    if got != want || lt != (want == Ordering::Less) || ge == lt {
                        return Err(format!("order of {:?} and {:?}: {:?}, less {}, greater or equal {}", a.0, b.0, got, lt, ge));
                    }
                    cx.label("order");
                }
            }
            _ => {
                // equality of balances
                let (i, j) = (cx.below(bals.len()), cx.below(bals.len()));
                let (a, b) = (&bals[i], &bals[j]);
                let eq = lib("==", || a.0 == b.0)?;
                let back = lib("==", || b.0 == a.0)?;
                if eq != (a.1 == b.1) || back != eq {
                    return Err(format!("({}) == ({}) is {}, the other way round {}", show(&a.1), show(&b.1), eq, back));
                }
                if eq && i != j {
                    cx.label("equal balances");
                }
            }
        }
        // what the newest balance says
        let (b, want) = &bals[bals.len() - 1];
        let got = lib("iter", || observe(b))??;
        cx.log = log.join("\n");
        if got != *want {
            return Err(format!("balance b{} is {} instead of {}", bals.len() - 1, show(&got), show(want)));
        }
        let zero = lib("is_zero", || b.is_zero())?;
        if zero != want.is_empty() {
            return Err(format!("is_zero of {} is {}", show(want), zero));
        }
        let can = lib("can_be_zero", || b.can_be_zero())?;
        let could = want.is_empty() || (want.values().any(|x| x.is_positive()) && want.values().any(|x| x.is_negative()));
        if can != could {
            return Err(format!("can_be_zero of {} is {}", show(want), can));
        }
        match (lib("to_money", || b.to_money().ok())?, want.len()) {
            (Some(m), 0) if m.is_zero() => {}
            (Some(m), 1) => {
                let (k, v) = want.iter().next().unwrap();
                if m.get_amount() != *v || m.get_commodity().map(|x| x.get_name().to_string()).as_ref() != Some(k) {
                    return Err(format!("to_money of {} is {:?}", show(want), m));
                }
                cx.label("single amount");
            }
            (None, x) if x > 1 => cx.label("several commodities"),
            (m, _) => return Err(format!("to_money of {} is {:?}", show(want), m)),
        }
        for (k, name) in names.iter().enumerate().take(n) {
            let got = lib("get", || b.balance.get(&Some(currencies[k].clone())).map(|x| x.get_amount()))?;
            if got.unwrap_or_else(Q::zero) != want.get(*name).cloned().unwrap_or_else(Q::zero) {
                return Err(format!("the {} of {} cannot be found", name, show(want)));
            }
        }
    }
    cx.log = log.join("\n");
    let text = cx.log.clone();
    cx.mix(text.as_bytes());
    cx.nontrivial = kinds.len() >= 3 && bals.len() > 1;
    Ok(())
}

// ------------------------------------------------------------------------------------------ C27

trait Element: Sized + Clone {
    fn make(name: &str, aliases: &[String], directive: bool) -> Self;
    fn named(&self) -> String;
    const ALIASES: bool;
}
impl Element for Payee {
    fn make(name: &str, aliases: &[String], directive: bool) -> Self {
        if aliases.is_empty() && !directive {
            return Payee::from(name);
        }
        Payee::new(name.to_string(), None, aliases.iter().cloned().collect(), vec![], Origin::FromDirective)
    }
    fn named(&self) -> String {
        self.get_name().to_string()
    }
    const ALIASES: bool = true;
}
impl Element for Account {
    fn make(name: &str, aliases: &[String], directive: bool) -> Self {
        if aliases.is_empty() && !directive {
            return Account::from(name);
        }
        let a: HashSet<String> = aliases.iter().cloned().collect();
        Account::new(name.to_string(), Origin::FromDirective, None, None, a, vec![], vec![], vec![], false)
    }
    fn named(&self) -> String {
        self.get_name().to_string()
    }
    const ALIASES: bool = true;
}
impl Element for Currency {
    fn make(name: &str, _aliases: &[String], _directive: bool) -> Self {
        Currency::from(name)
    }
    fn named(&self) -> String {
        self.get_name().to_string()
    }
    const ALIASES: bool = false;
}

#[derive(Clone, Default, Debug)]
struct LM {
    /// lower case name: the name as inserted
    list: BTreeMap<String, String>,
    /// lower case alias: lower case name
    aliases: BTreeMap<String, String>,
}

const STEMS: [&str; 7] = ["ACME Inc.", "acme", "Ünder", "Assets:Cash", "a.b", "Bank 1", "Bank 12"];
const ALIAS: [[&str; 3]; 7] = [
    ["the ACME", "ac.me", "Bank 12"],
    ["AC", "zz top", "ünder"],
    ["u", "U n", "assets:cash"],
    ["cash", "K", "Pocket"],
    ["ab", "dots", "A-B"],
    ["b1", "first bank", "uno"],
    ["b12", "dozen", "Doce"],
];

fn capitals(cx: &mut Cx, s: &str) -> String {
    match cx.below(4) {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        2 => s.to_uppercase(),
        _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }).collect(),
    }
}

fn pattern(cx: &mut Cx) -> String {
    let k = cx.below(STEMS.len());
    let s = match cx.below(4) {
        0 => STEMS[k].to_string(),
        1 => ALIAS[k][cx.below(3)].to_string(),
        2 => ["Bank", "bank", "^a", "A", "e$", "[0-9]", "Nothing", ".", "^$", "d.+e", "ü", "Ü"][cx.below(12)].to_string(),
        _ => ALIAS[k][cx.below(3)].to_lowercase(),
    };
    match cx.below(4) {
        0 => regex::escape(&s),
        1 => format!("(?i){}", s),
        2 => format!("^{}$", s),
        _ => s,
    }
}

fn list_case<T>(cx: &mut Cx) -> Res
where
    T: Element + Eq + std::hash::Hash + HasName + Clone + dinero::models::FromDirective + dinero::models::HasAliases + std::fmt::Debug,
{
    let mut lists: Vec<(List<T>, LM)> = vec![(List::new(), LM::default())];
    let mut log: Vec<String> = vec![];
    let steps = cx.len(4, 45, 93);
    let mut kinds = BTreeSet::new();
    for _ in 0..steps {
        let l = if lists.len() > 1 && cx.chance(40) { 1 } else { 0 };
        let op = cx.below(14);
        kinds.insert(op);
        match op {
            0 | 1 | 2 => {
                let k = cx.below(STEMS.len());
                let name = capitals(cx, STEMS[k]);
                let mut aliases: Vec<String> = vec![];
                let m = &lists[l].1;
                // aliases which are new, and which nobody else has
                if T::ALIASES && cx.chance(40) {
                    for a in ALIAS[k].iter() {
                        if cx.chance(40) && !lists.iter().any(|x| x.1.aliases.contains_key(&a.to_lowercase())) {
                            aliases.push(capitals(cx, a));
                        }
                    }
                }
                let there = m.list.contains_key(&name.to_lowercase());
                if there {
                    cx.label("inserted again");
                }
                log.push(format!("list {}: insert {:?} with aliases {:?}", l, name, aliases));
                let directive = cx.chance(50);
                let e = T::make(&name, &aliases, directive);
                let list = &mut lists[l].0;
                lib("insert", || list.insert(e))?;
                if !there {
                    let key = name.to_lowercase();
                    for a in aliases {
                        lists[l].1.aliases.insert(a.to_lowercase(), key.clone());
                    }
                    lists[l].1.list.insert(key, name);
                }
            }
            3 | 4 => {
                // an alias for an element which is there
                let keys: Vec<(String, String)> = lists[l].1.list.clone().into_iter().collect();
                if keys.is_empty() {
                    continue;
                }
                let (key, name) = cx.pick(&keys).clone();
                let k = STEMS.iter().position(|x| x.to_lowercase() == key).unwrap();
                let stem = ALIAS[k][cx.below(3)];
                let alias = capitals(cx, stem);
                let low = alias.to_lowercase();
                let repeated = lists[l].1.aliases.contains_key(&low);
                if !repeated && lists.iter().any(|x| x.1.aliases.contains_key(&low)) {
                    continue;
                }
                log.push(format!("list {}: alias {:?} for {:?}", l, alias, name));
                let e = T::make(&name, &[], false);
                let list = &mut lists[l].0;
                let r = catch_unwind(AssertUnwindSafe(|| list.add_alias(alias.clone(), &e)));
                if repeated {
                    cx.label("repeated alias");
                    if r.is_ok() {
                        return Err(format!("adding {:?} once more did not panic", alias));
                    }
                } else {
                    if let Err(e) = r {
                        return Err(format!("adding the alias {:?} panicked: {}", alias, panic_text(e)));
                    }
                    lists[l].1.aliases.insert(low, key);
                }
            }
            5 if lists.len() == 1 && cx.chance(50) => {
                log.push("list 1: new".to_string());
                lists.push((List::new(), LM::default()));
            }
            6 if lists.len() == 1 && cx.chance(40) => {
                log.push("list 1: a copy of list 0".to_string());
                let c = lists[0].clone();
                lists.push(c);
                cx.label("copy");
            }
            7 if lists.len() == 2 && cx.chance(60) => {
                // what both have stays as it is in the first
                let (other, om) = lists[1].clone();
                // aliases of elements which are in both, but are not aliases in the first, are not decided
                let unclear = om.aliases.iter().any(|(a, k)| match lists[0].1.aliases.get(a) {
                    Some(k0) => k0 != k,
                    None => lists[0].1.list.contains_key(k),
                });
                if unclear {
                    continue;
                }
                log.push("list 0: append list 1".to_string());
                let list = &mut lists[0].0;
                lib("append", || list.append(&other))?;
                for (key, name) in om.list {
                    if lists[0].1.list.contains_key(&key) {
                        continue;
                    }
                    for (a, k) in om.aliases.iter().filter(|x| *x.1 == key) {
                        lists[0].1.aliases.insert(a.clone(), k.clone());
                    }
                    lists[0].1.list.insert(key, name);
                }
                lists.pop();
                cx.label("append");
            }
            8 | 9 | 10 => {
                let p = pattern(cx);
                let re = match Regex::new(&p) {
                    Ok(r) => r,
                    Err(_) => continue,
                };
                log.push(format!("list {}: look for /{}/", l, p));
                let list = &mut lists[l].0;
                let got = lib("get_regex", || list.get_regex(re.clone()).map(|x| x.named()))?;
                let again = lib("get_regex", || list.get_regex(re.clone()).map(|x| x.named()))?;
                let m = &lists[l].1;
                let mut ok: BTreeSet<String> = m.list.values().filter(|x| re.is_match(x)).cloned().collect();
                ok.extend(m.aliases.iter().filter(|x| re.is_match(x.0)).map(|x| m.list[x.1].clone()));
                cx.log = log.join("\n");
                if got != again {
                    return Err(format!("/{}/ finds {:?} and then {:?}", p, got, again));
                }
                match got {
                    None if ok.is_empty() => cx.label("expression finds nothing"),
                    Some(x) if ok.contains(&x) => cx.label("expression finds something"),
                    x => return Err(format!("/{}/ finds {:?}: expected one of {:?}", p, x, ok)),
                }
            }
            _ => {}
        }
        cx.log = log.join("\n");
        // everything there is, in some capitals
        for i in 0..lists.len() {
            let m = lists[i].1.clone();
            let n = lists[i].0.len();
            if n != m.list.len() {
                return Err(format!("list {} has {} elements instead of {}", i, n, m.list.len()));
            }
            let n = lists[i].0.len_alias();
            if n != m.list.len() + m.aliases.len() {
                return Err(format!("list {} has {} elements and aliases instead of {}", i, n, m.list.len() + m.aliases.len()));
            }
            let names: BTreeSet<String> = lists[i].0.values().map(|x| x.named()).collect();
            if names != m.list.values().cloned().collect() {
                return Err(format!("list {} has {:?} instead of {:?}", i, names, m.list));
            }
            let entries: BTreeSet<String> = lists[i].0.iter().map(|x| x.1.named()).collect();
            if entries != names {
                return Err(format!("list {}: iter gives {:?} and values {:?}", i, entries, names));
            }
            let mut asked: Vec<String> = vec![];
            for k in 0..STEMS.len() {
                asked.push(STEMS[k].to_string());
                asked.extend(ALIAS[k].iter().map(|x| x.to_string()));
            }
            let way = cx.below(4);
            for a in asked {
                let spelled = match way {
                    0 => a.clone(),
                    1 => a.to_lowercase(),
                    2 => a.to_uppercase(),
                    _ => a.chars().rev().collect::<String>().chars().rev().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_uppercase().next().unwrap() } else { c }).collect(),
                };
                let low = a.to_lowercase();
                let want = m.list.get(&low).or_else(|| m.aliases.get(&low).map(|k| &m.list[k])).cloned();
                let list = &lists[i].0;
                let got = lib("get", || list.get(&spelled).ok().map(|x| x.named()))?;
                if got != want {
                    return Err(format!("list {}: {:?} gives {:?} instead of {:?}", i, spelled, got, want));
                }
            }
        }
    }
    let text = cx.log.clone();
    cx.mix(text.as_bytes());
    cx.nontrivial = !lists[0].1.aliases.is_empty() && lists[0].1.list.len() > 1 && kinds.len() > 3;
    Ok(())
}

fn c27(cx: &mut Cx) -> Res {
    match cx.below(3) {
        0 => list_case::<Payee>(cx),
        1 => list_case::<Account>(cx),
        _ => list_case::<Currency>(cx),
    }
}

// ------------------------------------------------------------------------------------------ C28

fn c28(cx: &mut Cx) -> Res {
    let names = ["EUR", "USD", "GBP", "AAPL", "MSFT", "$", "eur", "XAU", "BTC"];
    let n = 2 + cx.below(names.len() - 1);
    let currencies: Vec<Rc<Currency>> = names.iter().take(n).map(|x| Rc::new(Currency::from(*x))).collect();
    let base = NaiveDate::from_ymd(2020, 2, 27);
    let spread = *cx.pick(&[0i64, 1, 3, 10, 400, 40000]);
    let day = |cx: &mut Cx| base + Duration::days(if spread == 0 { 0 } else { cx.range(-spread, spread) });
    let mut ps: Vec<rates::P> = vec![];
    let mut real: Vec<Price> = vec![];
    let mut log = vec![];
    let count = cx.len(0, 14, 85);
    // sometimes a chain, where the rates are unique
    let chain = cx.chance(35);
    for i in 0..count {
        let (a, b) = if chain {
            if i + 1 >= n {
                let k = cx.below(n - 1);
                (k, k + 1)
            } else {
                (i, i + 1)
            }
        } else {
            (cx.below(n), cx.below(n))
        };
        if a == b {
            continue;
        }
        let (a, b) = if cx.chance(50) { (b, a) } else { (a, b) };
        let v = match cx.below(4) {
            0 => q(cx.range(1, 9), 1),
            1 => q(cx.range(1, 100_000), 100),
            2 => q(cx.range(1, 1_000_000), 10_000_000),
            _ => q(cx.range(1, 1_000_000_000_000), cx.range(1, 7)),
        };
        let d = day(cx);
        log.push(format!("P {} {} {} {}", d, names[a], v, names[b]));
        ps.push(rates::P { date: d, a: names[a].to_string(), b: names[b].to_string(), q: v.clone() });
        // elements which are equal need not be the same
        let ca = if cx.chance(50) { currencies[a].clone() } else { Rc::new(Currency::from(names[a])) };
        real.push(Price::new(d, ca, Money::from((currencies[b].clone(), v))));
    }
    let t = cx.below(n);
    let date = match cx.below(4) {
        0 if !ps.is_empty() => {
            let k = cx.below(ps.len());
            ps[k].date
        }
        1 => base + Duration::days(50_000),
        2 if !ps.is_empty() => {
            let k = cx.below(ps.len());
            ps[k].date - Duration::days(1)
        }
        _ => day(cx),
    };
    log.push(format!("to {} on {}", names[t], date));
    cx.log = log.join("\n");
    let text = cx.log.clone();
    cx.mix(text.as_bytes());
    let ask = |c: usize, ps: &Vec<Price>| -> Result<BTreeMap<String, Q>, String> {
        let m = lib("conversion", || conversion(currencies[c].clone(), date, ps))?;
        Ok(m.into_iter().map(|(k, v)| (k.get_name().to_string(), v)).collect())
    };
    let got = ask(t, &real)?;
    // the target itself, if it is there, is worth one
    let mut others = got.clone();
    if let Some(x) = others.remove(names[t]) {
        if !x.is_one() {
            return Err(format!("one {} is worth {} {}", names[t], x, names[t]));
        }
    }
    for _ in 0..2 {
        let again = ask(t, &real)?;
        if again != got {
            return Err(format!("first {:?}, then {:?}", got, again));
        }
    }
    let worlds = match rates::rates(names[t], date, &ps) {
        Some(w) => w,
        None => {
            cx.label("too many possibilities");
            return Ok(());
        }
    };
    let fits = worlds.iter().any(|w| {
        w.len() == others.len() && w.iter().all(|(c, rs)| others.get(c).map_or(false, |x| rs.contains(x)))
    });
    if !fits {
        return Err(format!("rates {:?}: expected one of {:?}", others, worlds));
    }
    if worlds.len() > 1 {
        cx.label("several prices of one day");
    }
    let far = others.len() > 1;
    if far {
        cx.label("two or more commodities");
    }
    // there and back, where the pairs with a price form a tree and no day has two prices
    let pairs: BTreeSet<(String, String)> = ps
        .iter()
        .filter(|p| p.date <= date)
        .map(|p| if p.a < p.b { (p.a.clone(), p.b.clone()) } else { (p.b.clone(), p.a.clone()) })
        .collect();
    let mut root: BTreeMap<String, String> = BTreeMap::new();
    fn find(root: &BTreeMap<String, String>, x: &str) -> String {
        let mut x = x.to_string();
        while let Some(y) = root.get(&x) {
            x = y.clone();
        }
        x
    }
    let mut tree = true;
    for (a, b) in &pairs {
        let (x, y) = (find(&root, a), find(&root, b));
        if x == y {
            tree = false;
        } else {
            root.insert(x, y);
        }
    }
    if tree && worlds.len() == 1 && !others.is_empty() {
        cx.label("there and back");
        for (c, x) in others.iter() {
            let k = names.iter().position(|y| y == c).unwrap();
            let back = ask(k, &real)?;
            match back.get(names[t]) {
                Some(y) if (x * y).is_one() => {}
                y => return Err(format!("one {} is worth {} {}, and one {} is worth {:?} {}", c, x, names[t], names[t], y, c)),
            }
        }
        // the order of the prices does not matter
        let mut other = real.clone();
        other.reverse();
        let r = ask(t, &other)?;
        if r != got {
            return Err(format!("with the prices in another order {:?} instead of {:?}", r, got));
        }
    }
    cx.nontrivial = !others.is_empty();
    Ok(())
}

fn main() {
    let props = vec![
        Prop {
            id: "C26",
            quick: 400_000,
            thorough: 8_000_000,
            run: c26,
            rule: "sequences of 3 to 30 operations on amounts and balances of up to 7 commodities with precisions 0 to 25; amounts are small integers, cents, fractions, halves of the last digit, and products of numbers up to 10^18; after each operation the result is compared with a map of exact rationals. Non-trivial: three or more kinds of operation and at least one balance made",
            assumptions: &["numerators up to about 10^36", "amounts of different commodities are never ordered (the library panics, as documented)"],
        },
        Prop {
            id: "C27",
            quick: 80_000,
            thorough: 1_500_000,
            run: c27,
            rule: "sequences of 4 to 45 operations (insert with or without aliases, add_alias, also repeated, get, get_regex, append, copy) on lists of payees, accounts or commodities; after each one every name and alias is looked up and the counts compared with a map. Non-trivial: an alias, two elements and four kinds of operation",
            assumptions: &["aliases are given to elements which are in the list", "two elements are never inserted with the same alias"],
        },
        Prop {
            id: "C28",
            quick: 250_000,
            thorough: 4_000_000,
            run: c28,
            rule: "up to 14 prices between up to 9 commodities on days up to 110 years apart, random or in a chain, with ties, a target and a date before, at and after them; the rates are compared with all products along paths of least elapsed time, and, where the pairs form a tree, with their inverses. Non-trivial: a commodity can be converted",
            assumptions: &["prices are positive", "of two prices of one pair on one day either may be used"],
        },
    ];
    std::process::exit(engine::main(&props));
}
