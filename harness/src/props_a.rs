//! C01 to C09
use crate::engine::*;
use crate::expr::*;
use crate::gen::*;
use crate::model::*;
use crate::render::*;
use crate::report::*;
use crate::rich::scatter;
use num::{BigInt, Signed, Zero};

pub const MAIN: &str = "main.ledger";

pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
pub fn cat(a: &[&str], b: &[String]) -> Vec<String> {
    let mut v = strs(a);
    v.extend(b.iter().cloned());
    v
}
/// Writes a journal and the files it includes
pub fn write_all(cx: &mut Cx, st: &Style, path: &str, j: &[Entry]) {
    let text = render(cx, st, j);
    cx.file(path, &text);
    let dir = match path.rfind('/') {
        Some(k) => path[..k + 1].to_string(),
        None => String::new(),
    };
    for e in j {
        match e {
            Entry::Include(f, inner) => write_all(cx, st, &norm(&format!("{}{}", dir, f)), inner),
            Entry::Glob(_, files) => {
                for (f, inner) in files {
                    write_all(cx, st, &norm(&format!("{}{}", dir, f)), inner);
                }
            }
            _ => {}
        }
    }
}
/// A path without . and ..
pub fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for x in p.split('/') {
        match x {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    v.join("/")
}
/// What the generator made has to be accepted, or it is not a case
pub fn model(cx: &mut Cx, j: &[Entry]) -> Option<Model> {
    match evaluate(j, true) {
        Ok(m) => Some(m),
        Err(e) => {
            cx.label(&format!("not used: {}", e));
            None
        }
    }
}
/// An accepted journal of any kind
pub fn any_journal(cx: &mut Cx, g: &G, autos: u64) -> Vec<Entry> {
    let txns = gen_txns(cx, g);
    let mut j = wrap_txns(&txns);
    if cx.chance(autos) {
        for a in gen_autos(cx, g, &j, 2) {
            let at = cx.below(j.len() + 1);
            j.insert(at, Entry::Auto(a));
        }
    }
    j
}
pub fn style(cx: &mut Cx) -> Style {
    if cx.chance(40) {
        Style::fancy(25)
    } else {
        Style::plain()
    }
}
/// Runs flat balance, tree balance or register for a selection and compares
pub fn check_report(cx: &mut Cx, m: &Model, s: &Sel, kinds: &[&str]) -> Res {
    let args = sel_args(cx, s);
    let kind = *cx.pick(kinds);
    let head: Vec<&str> = match kind {
        "flat" => vec!["bal", "-f", MAIN, "--flat"],
        "tree" => vec!["bal", "-f", MAIN],
        _ => vec!["reg", "-f", MAIN],
    };
    let a = cat(&head, &args);
    let o = cx.runv(&a)?;
    accepted(&o, head[0])?;
    match kind {
        "flat" => check_flat(&o.out, &account_sums(m, s), None, true),
        "tree" => check_tree(&o.out, &account_sums(m, s), None, false),
        _ => check_register(&o.out, &select(m, s)),
    }
}
fn count_posts(m: &Model) -> usize {
    m.txns.iter().map(|t| t.posts.len()).sum()
}
fn count_sel(m: &Model, s: &Sel) -> usize {
    select(m, s).iter().map(|x| x.1.len()).sum()
}

// ---------------------------------------------------------------- C01

/// A small difference, which may be very small
fn nudge(cx: &mut Cx) -> Q {
    let k = cx.below(30);
    let x = Q::new(BigInt::from(1), num::pow(BigInt::from(10), k));
    signed(cx, x)
}
fn mutate_balance(cx: &mut Cx, t: &mut Txn, g: &G) -> &'static str {
    let with_amt: Vec<usize> = (0..t.posts.len()).filter(|i| t.posts[*i].amt.is_some()).collect();
    if with_amt.is_empty() {
        return "nothing to change";
    }
    let k = *cx.pick(&with_amt);
    match cx.draw(10) {
        0 | 1 => {
            let d = nudge(cx);
            let a = t.posts[k].amt.as_mut().unwrap();
            a.q = &a.q + d;
            "an amount off by a little"
        }
        2 => {
            let a = t.posts[k].amt.as_mut().unwrap();
            a.q = -a.q.clone();
            "a sign changed"
        }
        3 => {
            let c = g.comm(cx);
            t.posts[k].amt.as_mut().unwrap().c = c.clone();
            let u = match &t.posts[k].cost {
                Some(Cost::Unit(u)) | Some(Cost::Total(u)) => u.c == c,
                None => false,
            };
            if u {
                t.posts[k].cost = None;
            }
            "a commodity changed"
        }
        4 => {
            if t.posts.len() > 1 {
                t.posts.remove(k);
            }
            "a posting removed"
        }
        5 => {
            let at = cx.below(t.posts.len() + 1);
            let a = g.acct(cx);
            t.posts.insert(at, Post::new(&a, Kind::Real, None));
            "a posting without amount added"
        }
        6 => {
            let at = cx.below(t.posts.len() + 1);
            let a = g.acct(cx);
            let c = g.comm(cx);
            let x = g.sq(cx);
            let kind = *cx.pick(&[Kind::Brack, Kind::Virt, Kind::Real]);
            t.posts.insert(at, Post::new(&a, kind, Some(Amt { q: x, c })));
            "a posting added"
        }
        7 => {
            let kind = *cx.pick(&[Kind::Brack, Kind::Virt, Kind::Real]);
            t.posts[k].kind = kind;
            if kind != Kind::Real {
                t.posts[k].cost = None;
            }
            "a kind changed"
        }
        8 => {
            t.posts[k].amt = None;
            t.posts[k].cost = None;
            "an amount left out"
        }
        _ => {
            if let Some(Cost::Unit(u)) | Some(Cost::Total(u)) = t.posts[k].cost.as_mut() {
                u.q = &u.q + nudge(cx).abs();
            } else {
                t.posts[k].cost = None;
            }
            "a cost changed"
        }
    }
}
fn c01(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.tags = 0;
    g.virt = 25;
    g.costs = 30;
    if cx.chance(6) {
        g.max_posts = 60;
    }
    let mut txns = gen_txns(cx, &g);
    if g.max_posts == 60 {
        // many postings which add up
        let n = 30 + cx.below(60);
        let c = g.comm(cx);
        let mut posts = vec![];
        for _ in 0..n {
            let a = g.acct(cx);
            let x = gen_q(cx);
            let x = signed(cx, x);
            posts.push(Post::new(&a, Kind::Real, Some(Amt { q: x, c: c.clone() })));
        }
        for (c, x) in bneg(&remainder(&posts)) {
            let a = g.acct(cx);
            posts.push(Post::new(&a, Kind::Real, Some(Amt { q: x, c })));
        }
        cx.shuffle(&mut posts);
        txns[0].posts = posts;
        cx.label("many postings");
    }
    if cx.chance(10) {
        // what is left over in many commodities, of one sign or of both
        let n = 1 + cx.below(14);
        let kind = *cx.pick(&[Kind::Real, Kind::Real, Kind::Brack]);
        let sign = cx.draw(5);
        let odd = if cx.chance(50) { n - 1 } else { cx.below(n) };
        let in_turn = cx.chance(40);
        let mut posts = vec![];
        for k in 0..n {
            let a = g.acct(cx);
            let c = match cx.chance(40) {
                _ if in_turn => COMMODITIES[k % COMMODITIES.len()].to_string(),
                true => g.comm(cx),
                _ => cx.pick(COMMODITIES).to_string(),
            };
            let x = gen_q(cx);
            let x = match sign {
                0 => x,
                1 => -x,
                2 if k == odd => -x,
                2 => x,
                3 if k == odd => x,
                3 => -x,
                _ => signed(cx, x),
            };
            let y = match cx.draw(4) {
                0 => Some(-x.clone()),
                1 => Some(&x / Q::from_integer((-2).into())),
                _ => None,
            };
            posts.push(Post::new(&a, kind, Some(Amt { q: x, c: c.clone() })));
            if let Some(y) = y {
                let a = g.acct(cx);
                posts.push(Post::new(&a, kind, Some(Amt { q: y, c })));
            }
        }
        if cx.chance(15) {
            let a = g.acct(cx);
            posts.push(Post::new(&a, Kind::Real, None));
        }
        if cx.chance(50) {
            cx.shuffle(&mut posts);
        }
        txns[0].posts = posts;
        cx.label("left over in many commodities");
    }
    if cx.chance(65) {
        let i = cx.below(txns.len());
        let l = mutate_balance(cx, &mut txns[i], &g);
        cx.label(l);
        if cx.chance(15) {
            let i = cx.below(txns.len());
            mutate_balance(cx, &mut txns[i], &g);
        }
    }
    let j = wrap_txns(&txns);
    let want = evaluate(&j, true);
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    cx.nontrivial = true;
    cx.label(if want.is_ok() { "accepted" } else { "rejected" });
    let n = if cx.chance(10) { COMMANDS.len() } else { 2 };
    let mut cmds: Vec<&str> = COMMANDS.to_vec();
    cx.shuffle(&mut cmds);
    for cmd in cmds.into_iter().take(n) {
        let o = cx.run(&[cmd, "-f", MAIN])?;
        match &want {
            Ok(_) => accepted(&o, cmd)?,
            Err(e) => rejected(&o, cmd).map_err(|x| format!("{} ({})", x, e))?,
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.elide = 100;
    g.exchange = 10;
    g.tags = 40;
    g.virt = 30;
    g.payees = 30;
    if g.comms.len() > 4 {
        g.max_posts = 12;
    }
    let j = any_journal(cx, &g, 0);
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    let filled: Vec<(&MTxn, &MPost)> =
        m.txns.iter().flat_map(|t| t.posts.iter().filter(|p| p.filled).map(move |p| (t, p))).collect();
    cx.nontrivial = !filled.is_empty();
    if m.txns.iter().any(|t| t.posts.iter().filter(|p| p.filled).count() > 1) {
        cx.label("several commodities");
    }
    if filled.is_empty() {
        cx.label("nothing to fill");
    }
    let all = Sel::default();
    let o = cx.run(&["reg", "-f", MAIN])?;
    accepted(&o, "reg")?;
    check_register(&o.out, &select(&m, &all))?;
    let o = cx.run(&["bal", "-f", MAIN, "--flat"])?;
    accepted(&o, "bal")?;
    check_flat(&o.out, &account_sums(&m, &all), None, true)?;
    // the filled posting is found by its tags, payee and account
    if !filled.is_empty() {
        let (_, p) = *cx.pick(&filled);
        let p = p.clone();
        let mut s = Sel::default();
        let payee = Term::Payee(format!("^{}$", regex::escape(&p.payee)));
        let payee = if p.payee.contains('/') { Term::Word("a".to_string()) } else { payee };
        let acct = Term::Slash(format!("^{}$", regex::escape(&p.acct)));
        let first = match p.tags.first() {
            Some(t) if cx.chance(70) => {
                cx.label("by tag");
                Term::Tag(regex::escape(&t.0))
            }
            _ => acct.clone(),
        };
        s.query.terms.push((Join::Nothing, first));
        if cx.chance(60) {
            s.query.terms.push((Join::And, payee));
        }
        if cx.chance(40) {
            s.query.terms.push((Join::And, acct));
        }
        s.real = cx.chance(30);
        check_report(cx, &m, &s, &["flat", "reg"])?;
    }
    let v = vocab(&m);
    let s = gen_sel(cx, &v, true);
    check_report(cx, &m, &s, &["flat", "reg"])
}

// ---------------------------------------------------------------- C03

fn c03(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    if cx.chance(20) {
        g.max_txns = 25;
    }
    let j = any_journal(cx, &g, 20);
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    let v = vocab(&m);
    for _ in 0..2 {
        let s = gen_sel(cx, &v, true);
        let depth = if cx.chance(35) { Some(1 + cx.below(4)) } else { None };
        let no_total = cx.chance(20);
        let mut args = strs(&["bal", "-f", MAIN, "--flat"]);
        if let Some(d) = depth {
            args.push(if cx.chance(50) { "--depth" } else { "-d" }.to_string());
            args.push(d.to_string());
            cx.label("depth");
        }
        if no_total {
            args.push("--no-total".to_string());
        }
        args.extend(sel_args(cx, &s));
        let o = cx.runv(&args)?;
        accepted(&o, "bal")?;
        let sums = account_sums(&m, &s);
        if sums.values().filter(|b| !b.is_empty()).count() > 1 {
            cx.nontrivial = true;
        }
        if sums.values().any(|b| b.is_empty()) {
            cx.label("an account which sums to zero");
        }
        if sums.values().any(|b| b.len() > 1) {
            cx.label("several commodities in an account");
        }
        check_flat(&o.out, &sums, depth, !no_total)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn nested_accounts(cx: &mut Cx) -> Vec<String> {
    // up to 20 levels
    let deep = cx.chance(12);
    let parts = ["a", "b", "A", "ab", "Assets", "Assets2", "B c", "é"];
    let mut v: Vec<String> = vec![];
    for _ in 0..2 + cx.below(8) {
        let mut name = if !v.is_empty() && cx.chance(60) {
            let base: String = cx.pick(&v).clone();
            let n = base.split(':').count();
            truncate(&base, 1 + cx.below(n))
        } else {
            cx.pick(&parts).to_string()
        };
        let more = if deep { cx.range(4, 14) as usize } else { cx.len(0, 4, 50) };
        for _ in 0..more {
            name = format!("{}:{}", name, cx.pick(if deep { &parts[..4] } else { &parts }));
        }
        if name.len() > if deep { 70 } else { 30 } {
            continue;
        }
        // names are the same in other capitals
        if !v.iter().any(|x| x.to_lowercase() == name.to_lowercase()) {
            v.push(name);
        }
    }
    // also the parents: the same component in one way of writing it
    let mut w: Vec<String> = vec![];
    for x in v {
        let ok = w.iter().all(|y| {
            let n = x.split(':').zip(y.split(':')).take_while(|(a, b)| a.to_lowercase() == b.to_lowercase()).count();
            truncate(&x, n) == truncate(y, n)
        });
        if ok {
            w.push(x);
        }
    }
    w
}
fn c04(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.accts = nested_accounts(cx);
    g.max_txns = 8;
    if cx.chance(50) {
        // few different amounts, so that balances are often equal or zero
        g.comms.truncate(1 + cx.below(2));
    }
    let few = cx.chance(50);
    let mut txns = gen_txns(cx, &g);
    if few {
        for t in txns.iter_mut() {
            let c = g.comm(cx);
            let x = q(1 + cx.range(0, 1));
            let (a, b) = (g.acct(cx), g.acct(cx));
            t.posts = vec![
                Post::new(&a, Kind::Real, Some(Amt { q: x.clone(), c: c.clone() })),
                Post::new(&b, Kind::Real, if cx.chance(50) { None } else { Some(Amt { q: -x, c }) }),
            ];
        }
        cx.label("few amounts");
    }
    let j = wrap_txns(&txns);
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    let v = vocab(&m);
    for _ in 0..2 {
        let s = if cx.chance(60) { gen_sel(cx, &v, false) } else { Sel::default() };
        let most = if cx.chance(10) { 14 } else { 5 };
        let depth = if cx.chance(40) { Some(1 + cx.below(most)) } else { None };
        let no_total = cx.chance(20);
        let mut args = strs(&["bal", "-f", MAIN]);
        if let Some(d) = depth {
            args.push(if cx.chance(50) { "--depth" } else { "-d" }.to_string());
            args.push(d.to_string());
            cx.label("depth");
        }
        if no_total {
            args.push("--no-total".to_string());
        }
        args.extend(sel_args(cx, &s));
        let o = cx.runv(&args)?;
        accepted(&o, "bal")?;
        let sums = account_sums(&m, &s);
        let nodes = tree_sums(&sums);
        if nodes.keys().filter(|a| a.contains(':') && !nodes[*a].is_empty()).count() > 1 {
            cx.nontrivial = true;
        }
        if nodes.values().any(|b| b.is_empty()) {
            cx.label("zero accounts");
        }
        if o.out.lines().any(|l| l.contains(':')) {
            cx.label("several levels in one line");
        }
        check_tree(&o.out, &sums, depth, no_total)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn c05(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.virt = 30;
    g.max_txns = if cx.chance(15) { 30 } else { 8 };
    let j = any_journal(cx, &g, 20);
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    let v = vocab(&m);
    for k in 0..2 {
        let s = if k == 0 { Sel::default() } else { gen_sel(cx, &v, true) };
        let mut args = strs(&["reg", "-f", MAIN]);
        args.extend(sel_args(cx, &s));
        let o = cx.runv(&args)?;
        accepted(&o, "reg")?;
        let sel = select(&m, &s);
        if sel.len() > 1 {
            cx.nontrivial = true;
        }
        if sel.windows(2).any(|w| w[0].0.date == w[1].0.date) {
            cx.label("several transactions on a day");
        }
        if sel.windows(2).any(|w| w[0].0.id > w[1].0.id) {
            cx.label("written out of order");
        }
        check_register(&o.out, &sel)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

use std::collections::BTreeMap;
type Cents = BTreeMap<(String, String), BigInt>;

fn cents(s: &str) -> Result<BigInt, String> {
    let t: String = s.chars().filter(|c| *c != '.').collect();
    t.parse::<BigInt>().map_err(|_| format!("not a number: {:?}", s))
}
/// Sums by account and commodity, and the last running total, from the text of the register only
fn read_register(out: &str) -> Result<(Cents, BTreeMap<String, BigInt>), String> {
    let re = regex::Regex::new(" {2,}").unwrap();
    let mut sums = Cents::new();
    let mut last = BTreeMap::new();
    let amt = |s: &str| -> Result<(BigInt, String), String> {
        let s = s.trim();
        if s == "0" {
            return Ok((BigInt::zero(), String::new()));
        }
        let mut it = s.splitn(2, ' ');
        let n = cents(it.next().unwrap())?;
        Ok((n, it.next().unwrap_or("").to_string()))
    };
    for l in out.lines() {
        let mut f: Vec<&str> = re.split(l).collect();
        if f.last() == Some(&"") {
            f.pop();
        }
        if f.len() >= 4 {
            let n = f.len();
            let acct = f[n - 3].trim_matches(|c| "[]()".contains(c)).to_string();
            let (x, c) = amt(f[n - 2]).map_err(|e| format!("{} in {:?}", e, l))?;
            let e = sums.entry((acct, c)).or_insert_with(BigInt::zero);
            *e = &*e + x;
            last.clear();
        }
        let (x, c) = amt(f[f.len() - 1]).map_err(|e| format!("{} in {:?}", e, l))?;
        if !x.is_zero() {
            last.insert(c, x);
        }
    }
    sums.retain(|_, x| !x.is_zero());
    Ok((sums, last))
}
fn read_flat(out: &str) -> Result<(Cents, Option<BTreeMap<String, BigInt>>), String> {
    let r = read_balance(out)?;
    let mut sums = Cents::new();
    for l in r.lines {
        for (c, x) in l.amounts {
            let e = sums.entry((l.text.clone(), c)).or_insert_with(BigInt::zero);
            *e = &*e + cents(&x)?;
        }
    }
    let total = match r.total {
        None => None,
        Some(t) => {
            let mut b = BTreeMap::new();
            for (c, x) in t {
                b.insert(c, cents(&x)?);
            }
            Some(b)
        }
    };
    Ok((sums, total))
}
fn c06(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    // so that the columns can be told apart
    g.accts.retain(|a| !a.contains('(') && a.len() < 33);
    g.descs = g.descs.iter().map(|d| if d.len() < 33 { d.clone() } else { "A shop".to_string() }).collect();
    g.comms.retain(|c| c.len() < 5);
    if g.comms.is_empty() {
        g.comms.push("USD".to_string());
    }
    if g.accts.is_empty() {
        g.accts.push("Assets".to_string());
    }
    g.small = true;
    g.costs = 0;
    g.virt = 25;
    g.max_txns = 10;
    let mut j = any_journal(cx, &g, 0);
    // two decimals, so that what is printed is exact
    for e in j.iter_mut() {
        if let Entry::Txn(t) = e {
            for p in t.posts.iter_mut() {
                if let Some(a) = p.amt.as_mut() {
                    a.q = &a.q * q(1000) / q(100); // at most three decimals before
                }
            }
        }
    }
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    let v = vocab(&m);
    let s = gen_sel(cx, &v, true);
    let args = sel_args(cx, &s);
    let a = cat(&["bal", "-f", MAIN, "--flat"], &args);
    let b = cx.runv(&a)?;
    accepted(&b, "bal")?;
    let a = cat(&["reg", "-f", MAIN], &args);
    let r = cx.runv(&a)?;
    accepted(&r, "reg")?;
    let (bs, bt) = read_flat(&b.out)?;
    let (rs, rt) = read_register(&r.out)?;
    if bs != rs {
        return Err(format!("the balance report has {:?} and the register adds up to {:?}", bs, rs));
    }
    if let Some(t) = &bt {
        if *t != rt {
            return Err(format!("the total is {:?} and the last running total {:?}", t, rt));
        }
    }
    if bs.len() > 1 {
        cx.nontrivial = true;
    }
    // dates slice it
    let mut q2 = s.clone();
    q2.begin = None;
    q2.end = None;
    let d = *cx.pick(&v.dates) + chrono::Duration::days(cx.range(-1, 1));
    let mut slices = vec![];
    for k in 0..3 {
        let mut x = q2.clone();
        match k {
            0 => x.end = Some(d),
            1 => x.begin = Some(d),
            _ => {}
        }
        let args = sel_args(cx, &x);
        let a = cat(&["bal", "-f", MAIN, "--flat"], &args);
        let o = cx.runv(&a)?;
        accepted(&o, "bal")?;
        slices.push(read_flat(&o.out)?.0);
    }
    let mut sum = slices[0].clone();
    for (k, x) in &slices[1] {
        let e = sum.entry(k.clone()).or_insert_with(BigInt::zero);
        *e = &*e + x;
    }
    sum.retain(|_, x| !x.is_zero());
    if sum != slices[2] {
        return Err(format!("before and from {} on add up to {:?}, everything is {:?}", d, sum, slices[2]));
    }
    if !slices[0].is_empty() && !slices[1].is_empty() {
        cx.label("both slices");
    }
    // where the boundary is, by the model
    let mut x = q2.clone();
    match cx.draw(5) {
        0 | 1 => x.begin = Some(d),
        2 | 3 => x.end = Some(d),
        _ => {
            // also a single day and no day at all
            x.begin = Some(d);
            x.end = Some(d + chrono::Duration::days(cx.range(-1, 2)));
            cx.label("a few days");
        }
    }
    check_report(cx, &m, &x, &["flat", "reg"])
}

// ---------------------------------------------------------------- C07

fn c07(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.accts = pick_some(cx, ACCOUNTS, 3, 9);
    g.descs = pick_some(cx, DESCS, 2, 6);
    g.tags = 45;
    g.payees = 30;
    g.virt = 20;
    let j = any_journal(cx, &g, 10);
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    let v = vocab(&m);
    for _ in 0..3 {
        let mut s = Sel::default();
        s.query = gen_query(cx, &v, 6, true);
        let n = count_sel(&m, &s);
        if n > 0 && n < count_posts(&m) {
            cx.nontrivial = true;
            cx.label("some postings");
        }
        if s.query.terms.len() > 2 {
            cx.label("three or more terms");
        }
        if s.query.terms.iter().any(|t| t.0 == Join::And) && s.query.terms.iter().skip(1).any(|t| t.0 != Join::And) {
            cx.label("and with or");
        }
        check_report(cx, &m, &s, &["flat", "reg", "tree"])?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

fn chain(cx: &mut Cx, v: &Vocab, n: usize, boolean: bool) -> E {
    if boolean {
        let mut e = gen_bool(cx, v, 0, false);
        for _ in 1..n {
            let op = if cx.chance(50) { Op::And } else { Op::Or };
            let r = gen_bool(cx, v, 0, false);
            // left-associative by precedence: "or" of "and" chains
            e = match (op, e) {
                (Op::And, E::Bin(Op::Or, a, b)) => {
                    let b2 = E::Bin(Op::And, b, Box::new(r));
                    E::Bin(Op::Or, a, Box::new(b2))
                }
                (op, e) => E::Bin(op, Box::new(e), Box::new(r)),
            };
        }
        return e;
    }
    let mut e = E::Num(q(cx.range(1, 9)));
    for _ in 1..n {
        let op = *cx.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div]);
        let r = Box::new(E::Num(if op == Op::Mul || op == Op::Div { q(cx.range(1, 3)) } else { qd(cx.range(1, 99), 1) }));
        e = match (op, e) {
            (Op::Mul, E::Bin(o @ Op::Add, a, b)) | (Op::Mul, E::Bin(o @ Op::Sub, a, b)) | (Op::Div, E::Bin(o @ Op::Add, a, b)) | (Op::Div, E::Bin(o @ Op::Sub, a, b)) => {
                let b2 = E::Bin(op, b, r);
                E::Bin(o, a, Box::new(b2))
            }
            (op, e) => E::Bin(op, Box::new(e), r),
        };
    }
    e
}
fn c08(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.tags = 30;
    if cx.chance(50) {
        g.comms.truncate(1);
    }
    g.max_txns = 4;
    let txns = gen_txns(cx, &g);
    let mut j = wrap_txns(&txns);
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let v = vocab(&m);
    if cx.chance(50) {
        // the value itself, as the amount of an automated posting
        let e = match cx.draw(6) {
            0 => {
                let top = if cx.chance(10) { 120 } else { 12 };
                let n = 2 + cx.below(top);
                chain(cx, &v, n, false)
            }
            1 | 2 => gen_num(cx, &v, 4),
            _ => gen_money(cx, &v, 4),
        };
        // make small differences visible
        let e = if cx.chance(40) { E::Bin(Op::Mul, Box::new(e), Box::new(E::Num(q(1000000)))) } else { e };
        let mut qy = Query::default();
        qy.terms.push((Join::Nothing, Term::Slash(gen_regex(cx, &v.accts, false))));
        j.push(Entry::Auto(Auto {
            query: qy,
            comments: vec![],
            posts: vec![AutoPost { acct: "Value".to_string(), kind: Kind::Virt, amt: AutoAmt::Expr(e) }],
        }));
        let m = match model(cx, &j) {
            Some(m) => m,
            None => return Ok(()),
        };
        let st = style(cx);
        write_all(cx, &st, MAIN, &j);
        cx.label("value");
        cx.nontrivial = m.txns.iter().any(|t| t.posts.iter().any(|p| p.auto));
        let o = cx.run(&["reg", "-f", MAIN])?;
        accepted(&o, "reg")?;
        return check_register(&o.out, &select(&m, &Sel::default()));
    }
    write_all(cx, &Style::plain(), MAIN, &j);
    if cx.chance(20) {
        cx.ws = 2;
    }
    for _ in 0..3 {
        let mut s = Sel::default();
        let e = if cx.chance(20) {
            let top = if cx.chance(10) { 120 } else { 10 };
            let n = 3 + cx.below(top);
            if cx.chance(50) {
                chain(cx, &v, n, true)
            } else {
                let op = *cx.pick(&[Op::Lt, Op::Gt]);
                let c = chain(cx, &v, n, false);
                E::Bin(op, Box::new(E::Amount), Box::new(c))
            }
        } else {
            gen_bool(cx, &v, 3, true)
        };
        s.query.terms.push((Join::Nothing, Term::Expr(e)));
        let n = count_sel(&m, &s);
        if n > 0 && n < count_posts(&m) {
            cx.nontrivial = true;
            cx.label("some postings");
        }
        check_report(cx, &m, &s, &["flat", "reg"])?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn c09(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.max_txns = 8;
    g.accts.truncate(2 + cx.below(4));
    g.tags = 5;
    g.virt = 25;
    let mut txns = gen_txns(cx, &g);
    let comms = g.comms.clone();
    let asserted = add_assertions(cx, &mut txns, &comms, 40, 30);
    let autos = if cx.chance(25) {
        gen_autos(cx, &without_asserted(&g, &txns), &wrap_txns(&txns), 2)
    } else {
        vec![]
    };
    let kind = cx.draw(10);
    if kind < 5 && !asserted.is_empty() {
        // make one wrong, or the whole history before it
        let (i, k) = *cx.pick(&asserted);
        let d = nudge(cx);
        match cx.draw(5) {
            0..=2 => {
                let b = txns[i].posts[k].bal.as_mut().unwrap();
                b.q = &b.q + d;
            }
            3 => {
                let c = g.comm(cx);
                txns[i].posts[k].bal.as_mut().unwrap().c = c;
            }
            _ => {
                // another date: the same entries in another order
                txns[i].date = gen_date(cx);
            }
        }
    }
    let mut j = wrap_txns(&txns);
    if !autos.is_empty() {
        cx.label("automated");
    }
    scatter(cx, &mut j, autos.into_iter().map(Entry::Auto).collect());
    if cx.chance(25) && j.len() > 1 {
        // over several files
        let n = 1 + cx.below(j.len() - 1);
        let rest = j.split_off(n);
        j.push(Entry::Include("other.ledger".to_string(), rest));
        cx.label("included file");
    }
    let want = evaluate(&j, true);
    let loose = evaluate(&j, false);
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    cx.nontrivial = !asserted.is_empty();
    let strict = !cx.chance(25);
    let want = if strict { want } else { loose };
    cx.label(match (&want, strict) {
        (Ok(_), true) => "holds",
        (Err(_), true) => "fails",
        (Ok(_), false) => "not checked, accepted",
        _ => "not checked, rejected",
    });
    let cmd = *cx.pick(&["bal", "reg", "accounts", "prices"]);
    let mut extra: Vec<&str> = vec![];
    if !strict {
        extra.push("--no-balance-check");
    }
    let mut args = vec![cmd, "-f", MAIN];
    args.extend(extra.iter());
    let o = cx.run(&args)?;
    let m = match want {
        Err(e) => return rejected(&o, cmd).map_err(|x| format!("{} ({})", x, e)),
        Ok(m) => m,
    };
    accepted(&o, cmd)?;
    let mut args = vec!["reg", "-f", MAIN];
    args.extend(extra.iter());
    let o = cx.run(&args)?;
    accepted(&o, "reg")?;
    check_register(&o.out, &select(&m, &Sel::default()))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", quick: 60_000, thorough: 3_000_000, run: c01,
            rule: "random journals of 1-6 transactions (2-90 postings, up to 4 commodities, costs, virtual and bracketed postings, amounts from 1e-24 to 1e36), 65% of them changed in one place (amount nudged by 10^-k, sign, commodity, posting added or removed, amount left out, kind, cost); every case is non-trivial; the verdict of an independent exact model is compared with that of 2-7 commands",
            assumptions: &["journals written within the documented format", "virtual postings without costs"] },
        Prop { id: "C02", quick: 30_000, thorough: 1_500_000, run: c02,
            rule: "random journals with a posting without amount in every transaction where one is possible, at any position, with tags and payees; non-trivial when some posting is filled; register and balance, also restricted by the filled posting's tag, payee or account, are compared with the model",
            assumptions: &["amounts below 1e36"] },
        Prop { id: "C03", quick: 40_000, thorough: 2_000_000, run: c03,
            rule: "random journals (up to 25 transactions, automated transactions in 20%), two random selections each (query of up to 3 terms with expressions, date range, --real, depth, --no-total); non-trivial when more than one account is shown; compared with exact sums by the model",
            assumptions: &["depth at least 1"] },
        Prop { id: "C04", quick: 40_000, thorough: 2_000_000, run: c04,
            rule: "random account trees of up to 6 levels with names that are prefixes of each other, few or many different amounts, random selections and depths; non-trivial when at least two sub-accounts have a balance; the report is matched line by line with the model's tree",
            assumptions: &["depth at least 1"] },
        Prop { id: "C05", quick: 40_000, thorough: 2_000_000, run: c05,
            rule: "random journals of up to 30 transactions, dates repeated and out of order, virtual and automated postings, the whole register and one random selection; non-trivial when more than one transaction has rows; rows, order and all running totals are compared with the model",
            assumptions: &["descriptions shorter than the column"] },
        Prop { id: "C06", quick: 20_000, thorough: 1_000_000, run: c06,
            rule: "random journals with amounts of two decimals; the register is added up from its text and compared with the balance report of the same selection, and balances before and from a date near the transactions are added up; non-trivial when the balance has more than one line",
            assumptions: &["amounts of at most two decimals, so that the printed ones are exact"] },
        Prop { id: "C07", quick: 30_000, thorough: 1_500_000, run: c07,
            rule: "random journals with tags and payees, three random queries of 1-6 terms (words, /re/, @, %, expr; and, or, nothing between) made from the names in the journal; non-trivial when some query selects some but not all postings; compared with the model's selection",
            assumptions: &["terms are valid regular expressions without '/' or quotes"] },
        Prop { id: "C08", quick: 40_000, thorough: 2_000_000, run: c08,
            rule: "random expression trees (depth up to 4, chains of up to 120 operands) written with random redundant parentheses and spacing, used as query or as the amount of an automated posting, evaluated exactly by the model; non-trivial when a query selects some but not all postings or a value is shown",
            assumptions: &["well-typed expressions, amounts of different commodities not combined"] },
        Prop { id: "C09", quick: 60_000, thorough: 3_000_000, run: c09,
            rule: "random journals with true balance assertions and assignments at 40% of the postings, half of them with one made wrong by 10^-k, in another commodity, or moved to another date; over files, with and without --no-balance-check; non-trivial when there is an assertion; verdict and register compared with the model",
            assumptions: &["an assertion does not follow, in its transaction, a posting without amount to the same account"] },
    ]
}
