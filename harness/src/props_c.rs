//! C18 to C25
use crate::engine::*;
use crate::expr::*;
use crate::gen::*;
use crate::model::*;
use crate::props_a::*;
use crate::props_b::*;
use crate::render::*;
use crate::report::*;
use crate::rich::*;
use chrono::Datelike;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- C18

fn c18(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.costs = 30;
    if cx.chance(30) {
        g.comms.truncate(1);
    }
    let r = rich(cx, &g, &Mix { autos: 40, asserts: 50, prices: 4, dirs: 60 });
    let m = match model(cx, &r.j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    let al = r.aliased(&st, *cx.pick(&[50, 100, 20]));
    write_all(cx, &st, "a/main.ledger", &r.j);
    write_all(cx, &al, "b/main.ledger", &r.j);
    cx.nontrivial = !r.accts.is_empty() || !r.comms.is_empty();
    let v = vocab(&m);
    let mut reports = all_reports(cx, &v, None);
    cx.shuffle(&mut reports);
    for (cmd, args) in reports.into_iter().take(3) {
        if !same_report(cx, "a/main.ledger", "b/main.ledger", &cmd, &args)? {
            return Err(format!("{} fails and should succeed", cmd));
        }
    }
    let b = "b/main.ledger";
    let o = cx.run(&["reg", "-f", b])?;
    accepted(&o, "reg")?;
    check_register(&o.out, &select(&m, &Sel::default()))?;
    // names of commodities in expressions and after -X
    if let Some(c) = &v.single {
        if let Some(ways) = r.comms.get(c) {
            let mut s = Sel::default();
            let op = *cx.pick(&[Op::Lt, Op::Ge, Op::Eq, Op::Ne]);
            let x = cx.pick(&v.amounts).clone();
            let x = num::Signed::abs(&x);
            let e = E::Bin(op, Box::new(E::Amount), Box::new(E::Money(Amt { q: x, c: c.clone() })));
            s.query.terms.push((Join::Nothing, Term::Expr(e)));
            let way = cx.pick(ways).clone();
            let args = s.query.args(cx, &mut |_, _| way.clone());
            let a = cat(&["reg", "-f", b], &args);
            let o = cx.runv(&a)?;
            accepted(&o, "reg")?;
            check_register(&o.out, &select(&m, &s))?;
            cx.label("in an expression");
        }
    }
    let known: Vec<(&String, &Vec<String>)> = r.comms.iter().collect();
    if !known.is_empty() && cx.chance(60) {
        let (c, ways) = *cx.pick(&known);
        let way = cx.pick(ways).clone();
        let x = cx.run(&["bal", "-f", b, "--flat", "-X", c])?;
        let y = cx.run(&["bal", "-f", b, "--flat", "-X", &way])?;
        if x.ok != y.ok || x.out != y.out {
            return Err(format!("-X {} and -X {} give different reports", c, way));
        }
        cx.label("after -X");
    }
    // names which are not declared are also the same in other capitals
    if cx.chance(20) {
        let mut names: Vec<String> = ACCOUNTS.iter().map(|x| x.to_string()).filter(|x| !other_capitals(x).is_empty()).collect();
        cx.shuffle(&mut names);
        names.truncate(1 + cx.below(3));
        let mut text = String::new();
        let mut sums: BTreeMap<String, Bal> = BTreeMap::new();
        for k in 0..2 + cx.below(4) {
            let n = cx.pick(&names).clone();
            let mut ways = other_capitals(&n);
            ways.push(n.clone());
            let x = q(cx.range(1, 9));
            let w = cx.pick(&ways).clone();
            text.push_str(&format!("2020-01-{:02} x\n    {}    {} USD\n    Equity:All\n\n", k + 1, w, x));
            badd(sums.entry(n.to_lowercase()).or_insert_with(Bal::new), "USD", &x);
            badd(sums.entry("equity:all".to_string()).or_insert_with(Bal::new), "USD", &-x);
        }
        cx.file("c.ledger", &text);
        let o = cx.run(&["bal", "-f", "c.ledger", "--flat"])?;
        accepted(&o, "bal")?;
        let r = read_balance(&o.out)?;
        let mut got: BTreeMap<String, Shown> = BTreeMap::new();
        for l in r.lines {
            if got.insert(l.text.to_lowercase(), l.amounts).is_some() {
                return Err(format!("{} is shown twice, in different capitals", l.text));
            }
        }
        let want: BTreeMap<String, Shown> = sums.iter().map(|(a, b)| (a.clone(), shown(b))).collect();
        if got != want {
            return Err(format!("accounts have {:?} and should have {:?}", got, want));
        }
        cx.label("not declared");
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn c19(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.tags = 20;
    g.virt = 20;
    g.payees = 25;
    let txns = gen_txns(cx, &g);
    let mut j = wrap_txns(&txns);
    if cx.chance(25) {
        let more = payee_directives(cx, 40);
        scatter(cx, &mut j, more);
    }
    let mut autos = {
        let max = if cx.chance(4) { 12 } else { 4 };
        gen_autos(cx, &g, &j, max)
    };
    if autos.is_empty() {
        return Ok(());
    }
    if cx.chance(30) {
        // it may leave the transaction unbalanced
        let k = cx.below(autos.len());
        let a = &mut autos[k];
        match cx.draw(3) {
            0 => {
                let i = cx.below(a.posts.len());
                if a.posts.len() > 1 {
                    a.posts.remove(i);
                }
            }
            1 => {
                let i = cx.below(a.posts.len());
                a.posts[i].kind = *cx.pick(&[Kind::Real, Kind::Brack]);
            }
            _ => {
                let i = cx.below(a.posts.len());
                if let AutoAmt::Fixed(x) = &mut a.posts[i].amt {
                    x.q = &x.q + qd(1, 2);
                } else {
                    a.posts[i].amt = AutoAmt::Factor(qd(25, 2));
                }
            }
        }
        cx.label("changed");
    }
    for a in &autos {
        for p in &a.posts {
            cx.label(match p.amt {
                AutoAmt::Fixed(_) => "a stated amount",
                AutoAmt::Factor(_) => "a factor",
                AutoAmt::Expr(_) => "an expression",
            });
        }
        if !a.comments.is_empty() {
            cx.label("adds tags");
        }
    }
    if autos.len() > 1 {
        cx.label("several");
    }
    for a in autos {
        let at = cx.below(j.len() + 1);
        j.insert(at, Entry::Auto(a));
    }
    let want = evaluate(&j, true);
    if cx.chance(20) {
        let mut n = 0;
        j = distribute(cx, j, 2, &mut n);
    }
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    let m = match want {
        Err(e) => {
            cx.nontrivial = true;
            cx.label("unbalanced");
            let cmd = *cx.pick(COMMANDS);
            let o = cx.run(&[cmd, "-f", MAIN])?;
            return rejected(&o, cmd).map_err(|x| format!("{} ({})", x, e));
        }
        Ok(m) => m,
    };
    let added = m.txns.iter().any(|t| t.posts.iter().any(|p| p.auto));
    cx.nontrivial = added;
    if m.txns.iter().any(|t| t.posts.iter().any(|p| p.auto)) && m.txns.iter().any(|t| t.posts.iter().all(|p| !p.auto)) {
        cx.label("some transactions match");
    }
    let o = cx.run(&["reg", "-f", MAIN])?;
    accepted(&o, "reg")?;
    check_register(&o.out, &select(&m, &Sel::default()))?;
    // the tags which were added, and the payees of the added postings
    let v = vocab(&m);
    let mut s = Sel::default();
    let t = match cx.draw(4) {
        0 => Term::Tag(cx.pick(&["auto-1", "q2", "autokey"]).to_string()),
        1 => Term::Expr(E::HasTag(Box::new(E::Re(cx.pick(&["auto", "^q2$", "autokey"]).to_string())))),
        2 => Term::Payee(gen_regex(cx, &v.payees, true)),
        _ => Term::Word(cx.pick(&["budget", "auto", "savings:goal", "vat"]).to_string()),
    };
    s.query.terms.push((Join::Nothing, t));
    s.real = cx.chance(20);
    check_report(cx, &m, &s, &["flat", "reg"])
}

// ---------------------------------------------------------------- C20

fn c20(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.virt = 60;
    g.max_txns = 7;
    let mut r = rich(cx, &g, &Mix { autos: 0, asserts: 60, prices: 2, dirs: 15 });
    if cx.chance(25) {
        // another virtual posting, which may leave the bracketed ones unbalanced
        let idx: Vec<usize> = (0..r.j.len()).filter(|i| matches!(r.j[*i], Entry::Txn(_))).collect();
        let i = *cx.pick(&idx);
        if let Entry::Txn(t) = &mut r.j[i] {
            let kind = *cx.pick(&[Kind::Brack, Kind::Virt]);
            let c = g.comm(cx);
            let x = g.sq(cx);
            let a = g.acct(cx);
            let at = cx.below(t.posts.len() + 1);
            t.posts.insert(at, Post::new(&a, kind, Some(Amt { q: x, c })));
        }
    }
    if cx.chance(20) {
        for e in r.j.iter_mut() {
            if let Entry::Txn(t) = e {
                // a real posting changes
                if cx.chance(30) {
                    let with: Vec<usize> = (0..t.posts.len()).filter(|k| t.posts[*k].amt.is_some()).collect();
                    if !with.is_empty() {
                        let k = *cx.pick(&with);
                        let a = t.posts[k].amt.as_mut().unwrap();
                        a.q = &a.q + qd(1, 2);
                    }
                }
            }
        }
    }
    if cx.chance(30) {
        // automated transactions which add virtual postings only
        let autos = gen_autos(cx, &g, &r.j, 2);
        let mut with = r.j.clone();
        for mut a in autos {
            a.comments.clear();
            for p in a.posts.iter_mut() {
                if p.kind == Kind::Real {
                    p.kind = Kind::Brack;
                }
            }
            let at = cx.below(with.len() + 1);
            with.insert(at, Entry::Auto(a));
        }
        if evaluate(&with, true).is_ok() && with.len() > r.j.len() {
            cx.label("automated virtual postings");
            r.j = with;
        }
    }
    let mut stripped = r.j.clone();
    let mut any = false;
    let mut brackets = true;
    stripped.retain(|e| !matches!(e, Entry::Auto(_)));
    stripped.retain(|e| !matches!(e, Entry::Txn(t) if t.posts.iter().all(|p| p.kind != Kind::Real)));
    for e in stripped.iter_mut() {
        if let Entry::Txn(t) = e {
            t.posts.retain(|p| p.kind == Kind::Real);
        }
    }
    for e in &r.j {
        if let Entry::Txn(t) = e {
            let mut b = Bal::new();
            for p in &t.posts {
                any |= p.kind != Kind::Real;
                if p.kind == Kind::Brack {
                    let a = p.amt.as_ref().unwrap();
                    badd(&mut b, &a.c, &a.q);
                }
            }
            brackets &= can_be_zero(&b);
        }
    }
    let st = style(cx);
    write_all(cx, &st, "a/main.ledger", &r.j);
    write_all(cx, &st, "b/main.ledger", &stripped);
    cx.nontrivial = any;
    let a = cx.run(&["check", "-f", "a/main.ledger"])?;
    let b = cx.run(&["check", "-f", "b/main.ledger"])?;
    cx.label(match (a.ok, b.ok) {
        (true, true) => "accepted",
        (false, true) => "rejected because of the brackets",
        _ => "rejected",
    });
    if a.ok != (b.ok && brackets) {
        return Err(format!(
            "the journal is {}, without its virtual postings {}, and its bracketed postings {}",
            if a.ok { "accepted" } else { "rejected" },
            if b.ok { "accepted" } else { "rejected" },
            if brackets { "balance" } else { "do not balance" }
        ));
    }
    if !a.ok {
        return Ok(());
    }
    let m = match model(cx, &r.j) {
        Some(m) => m,
        None => return Err("the journal is accepted and should not be".to_string()),
    };
    let v = vocab(&m);
    for kind in 0..2 {
        let mut s = gen_sel(cx, &v, false);
        s.real = true;
        let mut t = s.clone();
        t.real = false;
        let x = sel_args(cx, &s);
        let y = sel_args(cx, &t);
        let head: Vec<&str> = match cx.draw(3) {
            0 => vec!["bal", "--flat"],
            1 => vec!["bal"],
            _ => vec!["reg"],
        };
        let mut h = head.clone();
        h.extend(&["-f", "a/main.ledger"]);
        let a = cat(&h, &x);
        let a = cx.runv(&a)?;
        let mut h = head.clone();
        h.extend(&["-f", "b/main.ledger"]);
        let b = cat(&h, &y);
        let b = cx.runv(&b)?;
        accepted(&a, head[0])?;
        accepted(&b, head[0])?;
        if a.out != b.out {
            return Err(format!("{:?} --real gives\n{}\nand without the virtual postings\n{}", head, a.out, b.out));
        }
        let _ = kind;
    }
    let o = cx.run(&["bal", "-f", "a/main.ledger", "--flat"])?;
    accepted(&o, "bal")?;
    check_flat(&o.out, &account_sums(&m, &Sel::default()), None, true)?;
    let o = cx.run(&["reg", "-f", "a/main.ledger"])?;
    accepted(&o, "reg")?;
    check_register(&o.out, &select(&m, &Sel::default()))
}

// ---------------------------------------------------------------- C21

fn c21(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.comms.retain(|c| !c.is_empty());
    if g.comms.is_empty() {
        g.comms.push("USD".to_string());
    }
    g.payees = 40;
    let mut r = rich(cx, &g, &Mix { autos: 40, asserts: 50, prices: 3, dirs: 35 });
    // things which are named only once
    if cx.chance(40) {
        r.j.push(Entry::Price(PriceLine {
            date: gen_date(cx),
            c: "OnlyPrice".to_string(),
            price: Amt { q: q(3), c: "PriceIn".to_string() },
        }));
    }
    for e in r.j.iter_mut() {
        if let Entry::Txn(t) = e {
            if cx.chance(15) {
                t.posts.push(Post::new("Only:Virtual", Kind::Virt, Some(Amt { q: q(1), c: "OnlyVirtual".to_string() })));
            }
            if cx.chance(10) {
                let mut p = Post::new("Only:Asserted", Kind::Real, Some(Amt { q: q(0), c: g.comms[0].clone() }));
                p.bal = Some(Amt { q: q(0), c: "OnlyAsserted".to_string() });
                t.posts.insert(0, p);
            }
        }
    }
    if has_expr_money(&r.j) || evaluate(&r.j, true).is_err() {
        cx.label("not used");
        return Ok(());
    }
    let (a, p, c) = names(&r.j);
    cx.nontrivial = a.len() + p.len() + c.len() > 5;
    let mut j = r.j.clone();
    if cx.chance(50) {
        let mut n = 0;
        j = distribute(cx, j, 3, &mut n);
        if n > 0 {
            cx.label("over files");
        }
    }
    let st = style(cx);
    let st = if cx.chance(60) { r.aliased(&st, 40) } else { st };
    write_all(cx, &st, MAIN, &j);
    for (cmd, want) in [("accounts", &a), ("payees", &p), ("commodities", &c)].iter() {
        let o = cx.run(&[cmd, "-f", MAIN])?;
        accepted(&o, cmd)?;
        check_list(&o.out, want).map_err(|e| format!("{}: {}", cmd, e))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

const ODD: &[&str] = &[":food: and more", "x :trip: y", "food", "a: b: c", "::", "no tag at all", "-", "key value", "trip Z"];

fn c22(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.tags = 0;
    g.elide = 60;
    g.virt = 25;
    g.max_txns = 4;
    let mut txns = gen_txns(cx, &g);
    for t in txns.iter_mut() {
        add_comments(cx, t, 60);
        let odd = |cx: &mut Cx, c: &mut Vec<Comment>| {
            if cx.chance(25) {
                let at = cx.below(c.len() + 1);
                c.insert(at, Comment::Plain(cx.pick(ODD).to_string()));
            }
        };
        odd(cx, &mut t.comments);
        for p in t.posts.iter_mut() {
            odd(cx, &mut p.comments);
        }
    }
    let j = wrap_txns(&txns);
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let mut st = style(cx);
    st.crlf = cx.chance(10);
    write_all(cx, &st, MAIN, &j);
    let mut pool: Vec<String> = vec![];
    for t in TAGS.iter().chain(KEYS.iter()).chain(["see", "this", "b", "a", "and"].iter()) {
        pool.push(t.to_string());
    }
    let mut used: Vec<(String, Option<String>)> = vec![];
    for t in &m.txns {
        for p in &t.posts {
            used.extend(p.tags.iter().cloned());
            if p.filled && !p.tags.is_empty() {
                cx.label("a filled posting with tags");
            }
        }
    }
    for _ in 0..4 {
        let name = if !used.is_empty() && cx.chance(75) { cx.pick(&used).0.clone() } else { cx.pick(&pool).clone() };
        let exact = format!("^{}$", regex::escape(&name));
        let term = match cx.draw(6) {
            0 => Term::Tag(exact),
            1 => Term::Tag(regex::escape(&name)),
            2 => Term::Expr(E::HasTag(Box::new(E::Re(exact)))),
            3 => Term::Expr(E::HasTag(Box::new(E::Re(".".to_string())))),
            _ => {
                let kv: Vec<&(String, Option<String>)> = used.iter().filter(|x| x.1.is_some()).collect();
                if kv.is_empty() {
                    Term::Tag(exact)
                } else {
                    let (k, v) = (*cx.pick(&kv)).clone();
                    let v = if cx.chance(80) { v.unwrap() } else { cx.pick(VALUES).to_string() };
                    cx.label("a value");
                    if cx.chance(50) {
                        Term::Expr(E::Bin(Op::Eq, Box::new(E::Tag(Box::new(E::Str(k)))), Box::new(E::Str(v))))
                    } else {
                        // only keys match this
                        Term::Expr(E::Match(Box::new(E::Tag(Box::new(E::Str(k)))), format!("^{}$", regex::escape(&v))))
                    }
                }
            }
        };
        let mut s = Sel::default();
        s.query.terms.push((Join::Nothing, term));
        let n: usize = select(&m, &s).iter().map(|x| x.1.len()).sum();
        let all: usize = m.txns.iter().map(|t| t.posts.len()).sum();
        if n > 0 && n < all {
            cx.nontrivial = true;
            cx.label("some postings");
        }
        check_report(cx, &m, &s, &["reg", "flat"])?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

#[derive(Clone)]
struct Opt {
    long: &'static str,
    short: Option<&'static str>,
    value: Option<String>,
}
fn opt_args(cx: &mut Cx, o: &Opt) -> Vec<String> {
    match &o.value {
        None => vec![o.long.to_string()],
        Some(v) => match (o.short, cx.draw(4)) {
            (Some(s), 0) => vec![s.to_string(), v.clone()],
            (Some(s), 1) => vec![format!("{}{}", s, v)],
            (_, 2) => vec![format!("{}={}", o.long, v)],
            _ => vec![o.long.to_string(), v.clone()],
        },
    }
}
fn opt_line(cx: &mut Cx, o: &Opt) -> String {
    let end = if cx.chance(10) { "  " } else { "" };
    match &o.value {
        None => format!("{}{}", o.long, end),
        Some(v) => match cx.draw(4) {
            0 => format!("{}={}{}", o.long, v, end),
            1 => format!("{}    {}{}", o.long, v, end),
            2 => format!("{}\t{}", o.long, v),
            _ => format!("{} {}{}", o.long, v, end),
        },
    }
}
fn gen_opt(cx: &mut Cx, name: &'static str, dates: &[Date]) -> Opt {
    let mut date = |cx: &mut Cx| {
        let d = *cx.pick(dates) + chrono::Duration::days(cx.range(-1, 1));
        Some(write_cli_date(cx, d))
    };
    match name {
        "--depth" => Opt { long: name, short: Some("-d"), value: Some((1 + cx.below(3)).to_string()) },
        "--begin" => Opt { long: name, short: Some("-b"), value: date(cx) },
        "--end" => Opt { long: name, short: Some("-e"), value: date(cx) },
        "--file" => Opt { long: name, short: Some("-f"), value: Some(cx.pick(&["one.ledger", "one.ledger", "d/the one.ledger", "año 1.ledger", "a=b.ledger"]).to_string()) },
        "--date-format" => Opt { long: name, short: None, value: Some(cx.pick(&["%Y-%m-%d", "%d %b %Y", "%y/%m/%d"]).to_string()) },
        "--period" => Opt { long: name, short: Some("-p"), value: Some(cx.pick(&["2020", "this year"]).to_string()) },
        "--now" => Opt { long: name, short: None, value: date(cx) },
        "--unrealized-gains" | "--unrealized-losses" => Opt { long: name, short: None, value: Some(cx.pick(&["Gains", "Gains in the year"]).to_string()) },
        _ => Opt { long: name, short: None, value: None },
    }
}
fn init_text(cx: &mut Cx, opts: &[Opt]) -> String {
    let mut lines: Vec<String> = vec![];
    for o in opts {
        lines.push(opt_line(cx, o));
    }
    for _ in 0..cx.len(0, 4, 50) {
        let c = cx
            .pick(&["; a comment", "# --real", "! --depth 1", "% --begin 2020-01-01", "", "   ", ";--flat", "  ; indented", "#"])
            .to_string();
        let at = cx.below(lines.len() + 1);
        lines.insert(at, c);
    }
    let mut s = lines.join("\n");
    if cx.chance(85) {
        s.push('\n');
    }
    s
}
fn c23(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.virt = 50;
    g.max_txns = 6;
    g.accts = pick_some(cx, ACCOUNTS, 3, 8);
    let mut txns = gen_txns(cx, &g);
    if cx.chance(30) {
        // a wrong assertion, so that it matters whether it is checked
        let comms = g.comms.clone();
        let at = add_assertions(cx, &mut txns, &comms, 30, 0);
        if !at.is_empty() {
            let (i, k) = *cx.pick(&at);
            let b = txns[i].posts[k].bal.as_mut().unwrap();
            b.q = &b.q + qd(1, 2);
        }
    }
    let st = style(cx);
    let j = wrap_txns(&txns);
    for name in &["one.ledger", "d/the one.ledger", "año 1.ledger", "a=b.ledger"] {
        write_all(cx, &st, name, &j);
    }
    let mut rest = j.clone();
    rest.truncate(1);
    write_all(cx, &st, "two.ledger", &rest);
    let dates: Vec<Date> = txns.iter().map(|t| t.date).collect();
    let cmd = *cx.pick(&["bal", "bal", "reg", "accounts", "prices", "payees", "commodities"]);
    let mut names: Vec<&'static str> = vec!["--file", "--no-balance-check", "--real", "--begin", "--end", "--depth", "--date-format"];
    if cx.chance(25) {
        names.extend(&["--period", "--now", "--strict", "--effective", "--unrealized-gains", "--unrealized-losses", "--force-pager"]);
    }
    if cmd == "bal" {
        names.extend(&["--flat", "--no-total"]);
    }
    // which are given, where
    let mut merged: Vec<Opt> = vec![];
    let mut cli: Vec<Opt> = vec![];
    let mut init: Vec<Opt> = vec![];
    let mut overridden = false;
    for n in names {
        let o = gen_opt(cx, n, &dates);
        let place = cx.draw(if n == "--file" { 3 } else { 5 });
        match place {
            0 => {
                cli.push(o.clone());
                merged.push(o);
            }
            1 => {
                init.push(o.clone());
                merged.push(o);
            }
            2 => {
                // both: the command line wins
                let mut other = gen_opt(cx, n, &dates);
                if n == "--file" {
                    other.value = Some(cx.pick(&["two.ledger", "missing.ledger"]).to_string());
                }
                init.push(other);
                cli.push(o.clone());
                merged.push(o);
                overridden = true;
            }
            _ => {}
        }
    }
    cx.shuffle(&mut init);
    cx.nontrivial = !init.is_empty();
    if overridden {
        cx.label("overridden");
    }
    let v = vocab(&evaluate(&j, false).unwrap_or_default());
    let query = if (cmd == "bal" || cmd == "reg") && cx.chance(40) {
        let qy = gen_query(cx, &v, 2, false);
        let mut a = qy.args(cx, &mut |_, c| c.to_string());
        if cx.chance(20) {
            // after -- everything is a term of the query
            a.insert(0, "--".to_string());
            if cx.chance(40) {
                a.push(cx.pick(&["--depth", "-d", "--flat", "--real", "-f", "--init-file"]).to_string());
            }
            cx.label("terms after --");
        }
        a
    } else {
        vec![]
    };
    let build = |cx: &mut Cx, opts: &[Opt], extra: &[String]| -> Vec<String> {
        let mut parts: Vec<Vec<String>> = opts.iter().map(|o| opt_args(cx, o)).collect();
        if !extra.is_empty() {
            parts.push(extra.to_vec());
        }
        cx.shuffle(&mut parts);
        let mut a = vec![cmd.to_string()];
        for p in parts {
            a.extend(p);
        }
        // the query goes last
        a.extend(query.iter().cloned());
        a
    };
    // everything on the command line, without any init file
    let a = build(cx, &merged, &[]);
    let want = cx.runv(&a)?;
    // with one init file, and others which are not read
    let text = init_text(cx, &init);
    let decoy = |cx: &mut Cx| cx.pick(&["--real\n--depth 1\n", "--begin 2050-01-01\n", "--file two.ledger\n", "this is not an option\n"]).to_string();
    let mut extra = vec![];
    match cx.draw(3) {
        0 => {
            let name = cx.pick(&["my.rc", "d/rc", "rc file"]).to_string();
            cx.file(&name, &text);
            extra = if cx.chance(50) { vec!["--init-file".to_string(), name] } else { vec![format!("--init-file={}", name)] };
            if cx.chance(50) {
                let t = decoy(cx);
                cx.file("~/.ledgerrc", &t);
                cx.label("others are not read");
            }
            if cx.chance(50) {
                let t = decoy(cx);
                cx.file(".ledgerrc", &t);
                cx.label("others are not read");
            }
            cx.label("--init-file");
        }
        1 => {
            cx.file("~/.ledgerrc", &text);
            if cx.chance(60) {
                let t = decoy(cx);
                cx.file(".ledgerrc", &t);
                cx.label("others are not read");
            }
            cx.label("home");
        }
        _ => {
            cx.file(".ledgerrc", &text);
            cx.label("current directory");
        }
    }
    let b = build(cx, &cli, &extra);
    let got = cx.runv(&b)?;
    cx.label(if want.ok { "accepted" } else { "rejected" });
    if want.ok != got.ok || want.out != got.out {
        return Err(format!(
            "{:?} without init file {} and prints\n{}\nbut {:?} with it {} and prints\n{}",
            a,
            if want.ok { "succeeds" } else { "fails" },
            want.out,
            b,
            if got.ok { "succeeds" } else { "fails" },
            got.out
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

fn any_date(cx: &mut Cx) -> Date {
    match cx.draw(6) {
        0 => Date::from_ymd(cx.range(1600, 2400) as i32, 2, 28) + chrono::Duration::days(cx.range(0, 2)),
        1 => Date::from_ymd(cx.range(1990, 2030) as i32, 1 + cx.draw(12) as u32, 1) + chrono::Duration::days(cx.range(-1, 1)),
        2 => Date::from_ymd(*cx.pick(&[1900, 2000, 2100, 2020, 2021]), 2, 27) + chrono::Duration::days(cx.range(0, 3)),
        3 => Date::from_ymd(2019, 12, 30) + chrono::Duration::days(cx.range(0, 4)),
        4 if cx.chance(25) => Date::from_ymd(*cx.pick(&[1, 9, 19, 20, 49, 50, 70, 99, 100, 999, 1000, 1582, 9998]), 1, 1) + chrono::Duration::days(cx.range(0, 364)),
        4 => Date::from_ymd(cx.range(1600, 2400) as i32, 1, 1) + chrono::Duration::days(cx.range(0, 365)),
        _ => Date::from_ymd(2020, 1, 8) + chrono::Duration::days(cx.range(0, 5)),
    }
}
/// Year, month and day which are not in the calendar
fn no_date(cx: &mut Cx) -> (i64, u64, u64) {
    let y = cx.range(1600, 2400);
    match cx.draw(8) {
        0 => (y, 2, 30),
        5 => (y, 0, 1 + cx.draw(28)),
        6 => (y, 1 + cx.draw(12), 0),
        1 => {
            let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            (y, 2, if leap { 31 } else { 29 })
        }
        2 => (y, *cx.pick(&[4, 6, 9, 11]), 31),
        3 => (y, 13 + cx.draw(7), 1 + cx.draw(28)),
        4 => (y, 1 + cx.draw(12), 32 + cx.draw(9)),
        _ => (*cx.pick(&[1700, 1900, 2100, 2021, 2023]), 2, 29),
    }
}
fn c24(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.tags = 0;
    g.max_txns = 6;
    let mut txns = gen_txns(cx, &g);
    for t in txns.iter_mut() {
        t.date = any_date(cx);
    }
    // some next to each other
    if txns.len() > 1 {
        for k in 1..txns.len() {
            if cx.chance(40) {
                txns[k].date = txns[k - 1].date + chrono::Duration::days(cx.range(-1, 1));
            }
        }
    }
    let mut j = wrap_txns(&txns);
    let mut prices = gen_prices(cx, &g, 2);
    for p in prices.iter_mut() {
        p.date = any_date(cx);
    }
    scatter(cx, &mut j, prices.into_iter().map(Entry::Price).collect());
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = Style::fancy(*cx.pick(&[0, 40, 70]));
    let bad = cx.draw(10);
    cx.nontrivial = true;
    if bad == 0 {
        // an impossible date in the journal
        let (y, mo, d) = no_date(cx);
        let sep = *cx.pick(&["-", "/", "."]);
        let date = format!("{}{}{:02}{}{:02}", y, sep, mo, sep, d);
        let (first, second) = (*cx.pick(&["-", "/", "."]), *cx.pick(&["-", "/", "."]));
        let line = if first != second && cx.chance(40) {
            cx.label("two separators in the journal");
            format!("{:04}{}02{}{:02} x\n    A    1 USD\n    B", y, first, second, 1 + cx.draw(28))
        } else if cx.chance(30) {
            format!("P {} USD 2 EUR", date)
        } else {
            format!("{} x\n    A    1 USD\n    B", date)
        };
        let at = cx.below(j.len() + 1);
        j.insert(at, Entry::Comment(line));
        write_all(cx, &st, MAIN, &j);
        cx.label("impossible in the journal");
        let cmd = *cx.pick(COMMANDS);
        let o = cx.run(&[cmd, "-f", MAIN])?;
        return rejected(&o, cmd).map_err(|e| format!("{} (date {})", e, date));
    }
    write_all(cx, &st, MAIN, &j);
    if bad == 1 {
        let (y, mo, d) = no_date(cx);
        let sep = *cx.pick(&["-", "/"]);
        let mut date = format!("{}{}{:02}{}{:02}", y, sep, mo, sep, d);
        if cx.chance(20) {
            date = format!("{:04}{}{}", y, sep, cx.pick(&["0", "00", "13", "14", "99"]));
        }
        let cmd = *cx.pick(&["bal", "reg"]);
        if cx.chance(50) {
            cx.label("impossible in an expression");
            let o = cx.run(&[cmd, "-f", MAIN, "expr", &format!("date >= to_date('{}')", date)])?;
            return rejected(&o, cmd).map_err(|e| format!("{} (date {})", e, date));
        }
        cx.label("impossible on the command line");
        let (cmd, opt) = (*cx.pick(&["bal", "reg"]), *cx.pick(&["--begin", "--end", "-b", "-e"]));
        let o = cx.run_real(&strs(&[cmd, "-f", MAIN, opt, &date]))?;
        return rejected(&o, cmd).map_err(|e| format!("{} (date {})", e, date));
    }
    let dates: Vec<Date> = m.txns.iter().map(|t| t.date).collect();
    for _ in 0..3 {
        let near = |cx: &mut Cx| {
            if cx.chance(85) {
                *cx.pick(&dates) + chrono::Duration::days(cx.range(-1, 1))
            } else {
                any_date(cx)
            }
        };
        let mut s = Sel::default();
        let mut args: Vec<String> = vec![];
        match cx.draw(5) {
            0 => {
                // the first day of a month
                let d = near(cx);
                let mut first = Date::from_ymd(d.year(), d.month(), 1);
                let sep = *cx.pick(&["-", "/"]);
                let text = if cx.chance(15) && d.year() > 1000 {
                    first = Date::from_ymd(d.year(), 1, 1);
                    cx.label("a year");
                    format!("{}", d.year())
                } else if cx.chance(50) {
                    format!("{:04}{}{:02}", first.year(), sep, first.month())
                } else {
                    format!("{:04}{}{}", first.year(), sep, first.month())
                };
                if cx.chance(50) {
                    s.begin = Some(first);
                    args.extend(strs(&["--begin", &text]));
                } else {
                    s.end = Some(first);
                    args.extend(strs(&["-e", &text]));
                }
                cx.label("a month");
            }
            1 | 2 => {
                let op = *cx.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne]);
                let d = near(cx);
                s.query.terms.push((Join::Nothing, Term::Expr(E::Bin(op, Box::new(E::Date), Box::new(E::ToDate(d))))));
                args = sel_args(cx, &s);
                cx.label("in an expression");
            }
            _ => {
                if cx.chance(70) {
                    s.begin = Some(near(cx));
                }
                if cx.chance(70) {
                    s.end = Some(near(cx));
                }
                args = sel_args(cx, &s);
            }
        }
        let a = cat(&["reg", "-f", MAIN], &args);
        let o = cx.runv(&a)?;
        accepted(&o, "reg")?;
        check_register(&o.out, &select(&m, &s))?;
        if cx.chance(30) {
            let a = cat(&["bal", "--flat", "-f", MAIN], &args);
            let o = cx.runv(&a)?;
            accepted(&o, "bal")?;
            check_flat(&o.out, &account_sums(&m, &s), None, true)?;
        }
    }
    let o = cx.run(&["prices", "-f", MAIN])?;
    accepted(&o, "prices")?;
    check_prices(&o.out, &m.prices)
}

// ---------------------------------------------------------------- C25

fn c25(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.payees = 40;
    g.descs = pick_some(cx, DESCS, 2, 7);
    g.max_txns = 7;
    g.tags = 10;
    let mut txns = gen_txns(cx, &g);
    let mut texts: Vec<String> = txns.iter().map(|t| payee_text(t)).collect();
    texts.sort();
    texts.dedup();
    // payees with patterns: a text belongs to at most one
    let mut dirs: Vec<PayeeDir> = vec![];
    let many = cx.chance(10);
    let most = if many { 6 + cx.below(8) } else { cx.below(6) };
    for n in ["Declared One", "Second Co.", "Tercero", "Ünïque", "V", "Six", "Siete", "#8", "Nine & Co", "Dez", "Onze", "12 de Mayo", "XIII"].iter().take(most) {
        let mut aliases: Vec<String> = vec![];
        for _ in 0..cx.len(0, 7, 50) {
            let r = gen_regex(cx, &texts, false);
            let same = texts.iter().any(|t| t.to_lowercase() == r.to_lowercase() && !rx(&r).is_match(t));
            let taken = texts.iter().any(|t| {
                rx(&r).is_match(t) && dirs.iter().any(|d: &PayeeDir| d.aliases.iter().any(|a| rx(a).is_match(t)))
            });
            let known = aliases.iter().chain(dirs.iter().flat_map(|d| d.aliases.iter())).any(|a| a.to_lowercase() == r.to_lowercase());
            // what is declared is matched too when it is written
            if !same && !taken && !known {
                aliases.push(r);
            }
        }
        let note = if cx.chance(15) { Some("note".to_string()) } else { None };
        dirs.push(PayeeDir { name: n.to_string(), aliases, note });
    }
    // a declared name as the text
    let named: Vec<String> = dirs.iter().map(|d| d.name.clone()).collect();
    if !named.is_empty() {
        for t in txns.iter_mut() {
            if cx.chance(10) {
                let n = cx.pick(&named).clone();
                if t.payee.is_some() {
                    t.payee = Some(n);
                } else {
                    t.desc = n;
                }
            }
        }
    }
    let refs: Vec<&PayeeDir> = dirs.iter().collect();
    let mut resolved: Vec<String> = txns.iter().map(|t| resolve_payee(&refs, &payee_text(t))).collect();
    resolved.sort();
    resolved.dedup();
    // accounts for payees
    let mut accts: Vec<AccountDir> = vec![];
    let unknown = cx.chance(65);
    if unknown {
        for n in ["Found:One", "Found:Two", "Expenses:Known"].iter().take(1 + cx.below(3)) {
            let mut payees: Vec<String> = vec![];
            for _ in 0..cx.len(1, 7, 50) {
                let r = gen_regex(cx, &resolved, false);
                let taken = resolved.iter().any(|t| {
                    rx(&r).is_match(t) && accts.iter().any(|d: &AccountDir| d.payees.iter().any(|a| rx(a).is_match(t)))
                });
                if !taken {
                    payees.push(r);
                }
            }
            accts.push(AccountDir { name: n.to_string(), aliases: vec![], payees, note: None });
        }
        for t in txns.iter_mut() {
            for p in t.posts.iter_mut() {
                if cx.chance(40) {
                    p.acct = cx.pick(&["Expenses:Unknown", "Unknown", "Income:Unknown", "Assets:UNKNOWN", "liabilities:well unknown"]).to_string();
                }
            }
        }
    }
    let mut j = wrap_txns(&txns);
    let mut more: Vec<Entry> = dirs.iter().cloned().map(Entry::Payee).collect();
    more.extend(accts.iter().cloned().map(Entry::Account));
    scatter(cx, &mut j, more);
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    if cx.chance(30) {
        let mut n = 0;
        j = distribute(cx, j, 2, &mut n);
    }
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    for t in &txns {
        let text = payee_text(t);
        let p = resolve_payee(&refs, &text);
        if p != text {
            cx.nontrivial = true;
            cx.label("by a pattern");
        }
        if t.posts.iter().any(|x| x.acct.ends_with("Unknown")) {
            cx.nontrivial = true;
            cx.label(if accts.iter().any(|d| d.payees.iter().any(|a| rx(a).is_match(&p))) {
                "unknown account found"
            } else {
                "unknown account stays"
            });
        }
    }
    let o = cx.run(&["reg", "-f", MAIN])?;
    accepted(&o, "reg")?;
    check_register(&o.out, &select(&m, &Sel::default()))?;
    let (_, p, _) = names(&j);
    let o = cx.run(&["payees", "-f", MAIN])?;
    accepted(&o, "payees")?;
    check_list(&o.out, &p)?;
    let v = vocab(&m);
    let mut s = Sel::default();
    let t = if cx.chance(70) {
        Term::Payee(gen_regex(cx, &v.payees, true))
    } else {
        Term::Expr(E::Match(Box::new(E::Payee), gen_regex(cx, &v.payees, false)))
    };
    s.query.terms.push((Join::Nothing, t));
    check_report(cx, &m, &s, &["reg", "flat"])?;
    let o = cx.run(&["bal", "-f", MAIN, "--flat"])?;
    accepted(&o, "bal")?;
    check_flat(&o.out, &account_sums(&m, &Sel::default()), None, true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C18", quick: 20_000, thorough: 1_000_000, run: c18,
            rule: "random journals with declared accounts and commodities (up to two aliases each, all capitals), written once with the declared names and once with aliases and other capitals in 20-100% of the places (postings, costs, assertions, prices, automated postings, expressions); all reports compared with each other and with the model, and -X and expressions on the command line by every name; non-trivial when some name has another spelling",
            assumptions: &["names and aliases are distinct without regard to capitals"] },
        Prop { id: "C19", quick: 40_000, thorough: 2_000_000, run: c19,
            rule: "random journals with 1-4 automated transactions (queries of 1-2 terms with expressions, 1-4 postings real, virtual or bracketed, with amounts, factors or expressions, tags), 30% changed so that they may not balance; register compared with the model, also by added tag, payee and account; non-trivial when a posting is added or the journal has to be rejected",
            assumptions: &["the queries do not use tags which other automated transactions add, nor any()"] },
        Prop { id: "C20", quick: 20_000, thorough: 1_000_000, run: c20,
            rule: "random journals with virtual and bracketed postings and assertions, 25% with another virtual posting and 20% with changed amounts, against the same journal without its virtual postings: verdicts, and --real reports with random selections; without --real against the model; non-trivial when there is a virtual posting",
            assumptions: &["no automated transactions"] },
        Prop { id: "C21", quick: 25_000, thorough: 1_200_000, run: c21,
            rule: "random journals with directives, aliases, costs, assertions, prices and automated postings, things named only in one kind of place, over files; the three lists are compared with the names in the journal; non-trivial with more than five names",
            assumptions: &["commodities that appear only inside value expressions are left out"] },
        Prop { id: "C22", quick: 25_000, thorough: 1_200_000, run: c22,
            rule: "random journals with comments in every place (first line, above, beside and below postings), with flags, key and value, plain and odd text; four queries each by %tag, has_tag and tag, compared with the model; non-trivial when a query selects some but not all postings",
            assumptions: &["a key has one value in a transaction"] },
        Prop { id: "C23", quick: 25_000, thorough: 1_200_000, run: c23,
            rule: "random journals and commands with up to nine options, each given on the command line, in the init file or in both with different values, in every spelling; the init file given by --init-file, in the home or the current directory, with others that must not be read; compared with all options on the command line; non-trivial when the init file has an option",
            assumptions: &["option lines start in the first column"] },
        Prop { id: "C24", quick: 25_000, thorough: 1_200_000, run: c24,
            rule: "random journals with dates from 1600 to 2400 (ends of months and years, leap days) in every spelling, filters by --begin, --end, year-month and to_date near them, compared with the model; 20% with an impossible date in the journal, on the command line or in an expression, which has to be rejected; every case is non-trivial",
            assumptions: &["years of four digits"] },
        Prop { id: "C25", quick: 30_000, thorough: 1_500_000, run: c25,
            rule: "random journals with up to five payee directives and three accounts with patterns generated from the texts (substrings, anchors, alternatives), descriptions with and without '|', postings to accounts ending in Unknown; register, payees, balance and queries by payee compared with the model; non-trivial when a pattern applies or there is an unknown account",
            assumptions: &["a text matches the patterns of at most one payee and one account"] },
    ]
}
