//! C32: what the library reads is what the files say.
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props_a::*;
use crate::props_b::*;
use crate::rich::*;
use dinero::models::{FromDirective, HasAliases, HasName, PostingType, PriceType, TransactionType};
use dinero::parser::Tokenizer;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let s = match e.downcast_ref::<String>() {
            Some(s) => s.clone(),
            None => e.downcast_ref::<&str>().unwrap_or(&"?").to_string(),
        };
        format!("{}: the library panicked: {}", what, s)
    })
}
/// The entries in the order in which they are read
fn flatten(j: &[Entry], v: &mut Vec<Entry>) {
    for e in j {
        match e {
            Entry::Include(_, inner) => flatten(inner, v),
            e => v.push(e.clone()),
        }
    }
}
fn kind_of(k: Kind) -> PostingType {
    match k {
        Kind::Real => PostingType::Real,
        Kind::Virt => PostingType::Virtual,
        Kind::Brack => PostingType::VirtualMustBalance,
    }
}
fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}", what, got, want))
    }
}
fn same_comments(what: &str, got: &[dinero::models::Comment], want: &[Comment]) -> Res {
    same(&format!("number of comments of {}", what), got.len(), want.len())?;
    for (g, w) in got.iter().zip(want) {
        // the space after the : of a tag with a value is free
        let plain = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ").replace(": ", ":");
        same(&format!("a comment of {}", what), plain(&g.comment), plain(&w.text()))?;
        let tags = lib("get_tags", || g.get_tags())?;
        let got: Vec<(String, Option<String>)> = tags.into_iter().map(|t| (t.name, t.value)).collect();
        same(&format!("tags of {:?} in {}", g.comment, what), got, w.tags())?;
    }
    Ok(())
}

fn sorted<'a>(v: impl IntoIterator<Item = &'a String>) -> Vec<&'a String> {
    let mut v: Vec<&String> = v.into_iter().collect();
    v.sort();
    v.dedup();
    v
}

fn c32(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.virt = 25;
    g.max_txns = 8;
    let mut r = rich(cx, &g, &Mix { autos: 30, asserts: 40, prices: 5, dirs: 35 });
    for _ in 0..cx.len(0, 3, 40) {
        let t = cx.pick(TAGS).to_string();
        let at = cx.below(r.j.len() + 1);
        r.j.insert(at, Entry::Tag(t));
    }
    // every transaction is known by its number
    let mut id = 0;
    for e in r.j.iter_mut() {
        if let Entry::Txn(t) = e {
            t.id = id;
            id += 1;
        }
    }
    if model(cx, &r.j).is_none() {
        return Ok(());
    }
    let mut n = 0;
    let from_file = cx.chance(60);
    let j = if from_file { distribute(cx, r.j.clone(), 3, &mut n) } else { r.j.clone() };
    let st = style(cx);
    let mut st = if cx.chance(40) { r.aliased(&st, 30) } else { st };
    st.crlf = cx.chance(10);
    st.no_final_newline = cx.chance(15);
    write_all(cx, &st, "books/main.ledger", &j);
    let path: PathBuf = cx.exec.work().join("books/main.ledger");
    let text = std::fs::read_to_string(&path).unwrap();
    let parsed = if from_file {
        lib("reading a file", || {
            let mut t = Tokenizer::from(&path);
            t.tokenize().map_err(|e| format!("{:?}", e))
        })?
    } else {
        lib("reading a text", || {
            let mut t = Tokenizer::from(text);
            t.tokenize().map_err(|e| format!("{:?}", e))
        })?
    }
    .map_err(|e| format!("it is not read: {}", e))?;
    let ledger = {
        let copy = parsed.clone();
        lib("to_ledger", || copy.to_ledger(false).map_err(|e| format!("{:?}", e)))?.map_err(|e| format!("it is not accepted: {}", e))?
    };
    cx.label(if n > 0 { "over files" } else if from_file { "one file" } else { "text" });

    let mut flat = vec![];
    flatten(&j, &mut flat);
    // directives
    let mut tags = vec![];
    let mut prices = vec![];
    let mut comments: Vec<String> = cx.between.iter().map(|s| s[1..].trim().to_string()).collect();
    let (mut accounts, mut commodities, mut payees) = (0, 0, 0);
    for e in &flat {
        match e {
            Entry::Tag(t) => tags.push(t.clone()),
            Entry::Price(p) => prices.push(p.clone()),
            Entry::Account(d) => {
                accounts += 1;
                for name in std::iter::once(&d.name).chain(d.aliases.iter()) {
                    let a = parsed.accounts.get(name).map_err(|_| format!("there is no account {:?}", name))?;
                    same("name of the account", a.get_name(), d.name.as_str())?;
                    same("the aliases of the account", sorted(HasAliases::get_aliases(a.as_ref())), sorted(&d.aliases))?;
                    same("depth of the account", a.depth(), d.name.split(':').count())?;
                    same("whether the account is the default", a.is_default(), cx.defaults.contains(&d.name))?;
                    same("whether the account is declared", a.is_from_directive(), true)?;
                    let pats: Vec<&str> = a.payees().iter().map(|r| r.as_str()).collect();
                    same("payees of the account", pats.len(), d.payees.len())?;
                }
            }
            Entry::Commodity(d) => {
                commodities += 1;
                for name in std::iter::once(&d.name).chain(d.aliases.iter()) {
                    let a = parsed.commodities.get(name).map_err(|_| format!("there is no commodity {:?}", name))?;
                    same("name of the commodity", a.get_name(), d.name.as_str())?;
                    same("the aliases of the commodity", sorted(HasAliases::get_aliases(a.as_ref())), sorted(&d.aliases))?;
                    same("whether the commodity is declared", a.is_from_directive(), true)?;
                }
            }
            Entry::Payee(d) => {
                payees += 1;
                let a = parsed.payees.get(&d.name).map_err(|_| format!("there is no payee {:?}", d.name))?;
                same("name of the payee", a.get_name(), d.name.as_str())?;
                let mut got: Vec<&str> = a.get_aliases().iter().map(|r| r.as_str()).collect();
                got.sort();
                let mut want: Vec<&str> = d.aliases.iter().map(|x| x.as_str()).collect();
                want.sort();
                same("aliases of the payee", got, want)?;
            }
            _ => {}
        }
    }
    same("number of accounts", parsed.accounts.len(), accounts)?;
    same("number of commodities", parsed.commodities.len(), commodities)?;
    same("number of payees", parsed.payees.len(), payees)?;
    same("number of prices", parsed.prices.len(), prices.len())?;
    same("tags", parsed.tags.iter().map(|t| t.name.clone()).collect::<Vec<_>>(), tags.clone())?;
    let mut below: Vec<String> = vec![];
    for t in &parsed.tags {
        below.extend(t.check.iter().map(|x| format!("check {}", x)));
        below.extend(t.assert.iter().map(|x| format!("assert {}", x)));
    }
    below.sort();
    let mut want: Vec<String> = cx.below_tags.iter().filter(|x| !x.starts_with(';')).cloned().collect();
    want.sort();
    same("lines below tags", below, want)?;
    let mut got: Vec<String> = parsed.comments.iter().map(|c| c.comment.clone()).collect();
    got.sort();
    comments.sort();
    same("comments between entries", got, comments.clone())?;
    let total = accounts + commodities + payees + prices.len() + tags.len() + comments.len() + parsed.transactions.len();
    same("number of items", parsed.len(), total)?;
    // the names which are used
    let account = |name: &str| ledger.accounts.get(name).map(|a| a.get_name().to_string()).map_err(|_| format!("there is no account {:?}", name));
    let commodity = |name: &str| ledger.get_commodities().get(name).map(|a| a.get_name().to_string()).map_err(|_| format!("there is no commodity {:?}", name));
    let money = |what: &str, q: &Option<Q>, c: &Option<String>, want: &Option<Amt>| -> Res {
        match (q, c, want) {
            (None, None, None) => Ok(()),
            (Some(q), Some(c), Some(w)) => {
                same(what, q, &w.q)?;
                same(what, commodity(c)?.as_str(), w.c.as_str())
            }
            _ => Err(format!("{} is {:?} {:?} instead of {:?}", what, q, c, want)),
        }
    };
    // prices, to which the transactions add theirs
    for p in &prices {
        let found = ledger.get_prices().iter().any(|x| {
            let m = x.get_price();
            let text = format!("{}", x);
            text.starts_with(&format!("{} {} ", p.date, p.c))
                && m.get_amount() == p.price.q
                && m.get_commodity().map(|c| c.get_name().to_string()) == Some(p.price.c.clone())
        });
        if !found {
            return Err(format!("the price {:?} is not in the ledger", p));
        }
    }
    // transactions, in their order
    let txns: Vec<&Entry> = flat.iter().filter(|e| matches!(e, Entry::Txn(_) | Entry::Auto(_))).collect();
    same("number of transactions", parsed.transactions.len(), txns.len())?;
    let mut details = 0;
    for (got, want) in parsed.transactions.iter().zip(txns) {
        match want {
            Entry::Txn(t) => {
                let what = format!("{} {}", t.date, t.desc);
                if !matches!(got.transaction_type, TransactionType::Real) {
                    return Err(format!("{} is read as {:?}", what, got.transaction_type));
                }
                same("the date", got.date, Some(t.date))?;
                same(&format!("the effective date of {}", what), got.effective_date, cx.effective.get(&t.id).cloned())?;
                same("the description", got.description.as_str(), t.desc.as_str())?;
                let payee = t.payee.clone().unwrap_or(t.desc.clone());
                if !payee.is_empty() {
                    same(&format!("the payee of {}", what), got.payee.clone(), Some(payee))?;
                }
                let all: Vec<Comment> = t.header_comment.iter().chain(t.comments.iter()).cloned().collect();
                same_comments(&what, &got.comments, &all)?;
                let posts = got.postings.borrow();
                same(&format!("number of postings of {}", what), posts.len(), t.posts.len())?;
                for (p, w) in posts.iter().zip(&t.posts) {
                    let what = format!("{}, {}", what, w.acct);
                    same(&format!("the account of {}", what), account(&p.account)?.as_str(), w.acct.as_str())?;
                    same(&format!("the kind of {}", what), p.kind, kind_of(w.kind))?;
                    money(&format!("the amount of {}", what), &p.money_amount, &p.money_currency, &w.amt)?;
                    let cost = match &w.cost {
                        None => None,
                        Some(Cost::Unit(a)) | Some(Cost::Total(a)) => Some(a.clone()),
                    };
                    money(&format!("the cost of {}", what), &p.cost_amount, &p.cost_currency, &cost)?;
                    match (&p.cost_type, &w.cost) {
                        (None, None) | (Some(PriceType::PerUnit), Some(Cost::Unit(_))) | (Some(PriceType::Total), Some(Cost::Total(_))) => {}
                        (g, w) => return Err(format!("the cost of {} is {:?} instead of {:?}", what, g, w)),
                    }
                    money(&format!("the balance of {}", what), &p.balance_amount, &p.balance_currency, &w.bal)?;
                    same_comments(&what, &p.comments, &w.comments)?;
                    if p.amount_expr.is_some() {
                        return Err(format!("{} has an expression", what));
                    }
                    details += w.cost.is_some() as usize + w.bal.is_some() as usize + w.comments.len();
                }
            }
            Entry::Auto(a) => {
                if !matches!(got.transaction_type, TransactionType::Automated) {
                    return Err(format!("an automated transaction is read as {:?}", got.transaction_type));
                }
                same_comments("an automated transaction", &got.comments, &a.comments)?;
                let posts = got.postings.borrow();
                same("number of automated postings", posts.len(), a.posts.len())?;
                for (p, w) in posts.iter().zip(&a.posts) {
                    same("the account of an automated posting", account(&p.account)?.as_str(), w.acct.as_str())?;
                    same("the kind of an automated posting", p.kind, kind_of(w.kind))?;
                    match &w.amt {
                        AutoAmt::Fixed(a) => money("the amount of an automated posting", &p.money_amount, &p.money_currency, &Some(a.clone()))?,
                        AutoAmt::Factor(f) => {
                            same("the factor of an automated posting", p.money_amount.as_ref(), Some(f))?;
                            same("its commodity", p.money_currency.clone().unwrap_or_default(), String::new())?;
                        }
                        AutoAmt::Expr(_) => {
                            if p.amount_expr.is_none() || p.money_amount.is_some() {
                                return Err(format!("the expression of an automated posting is read as {:?}", p));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    cx.nontrivial = details > 0;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C32", quick: 60_000, thorough: 3_000_000, run: c32,
        rule: "random journals with directives, prices, tags, comments and automated transactions in many layouts, as text or over files, read by the library; every field of the result is compared with the generated journal; non-trivial with a cost, an assertion or a comment of a posting",
        assumptions: &["the state and code of a transaction are not kept by the library and not compared"] }]
}
