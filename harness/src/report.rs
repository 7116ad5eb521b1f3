//! Reads reports back and compares them with what they should say.
use crate::engine::Res;
use crate::exec::Out;
use crate::model::*;
use num::Zero;
use std::collections::{BTreeMap, BTreeSet};

/// Amounts as printed, by commodity
pub type Shown = BTreeMap<String, String>;

pub fn shown(b: &Bal) -> Shown {
    b.iter().map(|(c, x)| (c.clone(), fmt2(x))).collect()
}

fn is_number(s: &str) -> bool {
    let t = s.strip_prefix('-').unwrap_or(s);
    !t.is_empty() && t.chars().all(|c| c.is_ascii_digit() || c == '.')
}
fn amount(s: &str) -> Result<(String, String), String> {
    let s = s.trim();
    let (n, c) = match s.find(' ') {
        Some(k) => (&s[..k], s[k + 1..].trim()),
        None => (s, ""),
    };
    if !is_number(n) {
        return Err(format!("not an amount: {:?}", s));
    }
    Ok((n.to_string(), c.to_string()))
}
/// The parsed amount, the number of spaces after it, and the rest
fn amount_line(l: &str) -> Result<(String, String, usize, String), String> {
    let t = l.trim_start();
    match t.find("  ") {
        None => {
            let (n, c) = amount(t)?;
            Ok((n, c, 0, String::new()))
        }
        Some(k) => {
            let (n, c) = amount(&t[..k])?;
            let rest = &t[k..];
            let name = rest.trim_start();
            Ok((n, c, rest.len() - name.len(), name.trim_end().to_string()))
        }
    }
}
#[derive(Debug, Clone)]
pub struct BalLine {
    pub amounts: Shown,
    pub indent: usize,
    pub text: String,
}
#[derive(Debug, Clone, Default)]
pub struct BalReport {
    pub lines: Vec<BalLine>,
    pub total: Option<Shown>,
}
pub fn read_balance(out: &str) -> Result<BalReport, String> {
    let mut r = BalReport::default();
    let mut amounts = Shown::new();
    let mut in_total = false;
    let mut total_lines = 0;
    for l in out.lines() {
        if !in_total && l.trim_end() == "--------------------" {
            if !amounts.is_empty() {
                return Err("amounts without an account".to_string());
            }
            in_total = true;
            continue;
        }
        let (n, c, spaces, name) = amount_line(l).map_err(|e| format!("{} in line {:?}", e, l))?;
        if in_total {
            total_lines += 1;
            if !name.is_empty() {
                return Err(format!("an account after the total: {:?}", l));
            }
        }
        if n == "0" {
            if !in_total || !c.is_empty() || total_lines > 1 {
                return Err(format!("a zero amount in line {:?}", l));
            }
            continue;
        }
        if amounts.insert(c, n).is_some() {
            return Err(format!("the same commodity twice, in line {:?}", l));
        }
        if !name.is_empty() {
            r.lines.push(BalLine { amounts: std::mem::take(&mut amounts), indent: spaces, text: name });
        }
    }
    if in_total {
        if total_lines == 0 {
            return Err("no total after the line".to_string());
        }
        r.total = Some(amounts);
    } else if !amounts.is_empty() {
        return Err("amounts without an account".to_string());
    }
    Ok(r)
}

pub fn truncate(name: &str, depth: usize) -> String {
    name.split(':').take(depth).collect::<Vec<_>>().join(":")
}
pub fn merge_depth(sums: &BTreeMap<String, Bal>, depth: Option<usize>) -> BTreeMap<String, Bal> {
    match depth {
        None => sums.clone(),
        Some(d) => {
            let mut r: BTreeMap<String, Bal> = BTreeMap::new();
            for (a, b) in sums {
                let e = r.entry(truncate(a, d)).or_insert_with(Bal::new);
                *e = bsum(e, b);
            }
            r
        }
    }
}
/// The flat balance report of these sums
pub fn check_flat(out: &str, sums: &BTreeMap<String, Bal>, depth: Option<usize>, with_total: bool) -> Res {
    let r = read_balance(out)?;
    let mut want: BTreeMap<String, Shown> = BTreeMap::new();
    for (a, b) in merge_depth(sums, depth) {
        if !b.is_empty() {
            want.insert(a, shown(&b));
        }
    }
    let mut seen = BTreeSet::new();
    for l in &r.lines {
        if !seen.insert(l.text.clone()) {
            return Err(format!("account {:?} appears twice", l.text));
        }
        match want.get(&l.text) {
            None => return Err(format!("account {:?} should not be shown", l.text)),
            Some(w) if *w != l.amounts => {
                return Err(format!("account {:?} has {:?} and should have {:?}", l.text, l.amounts, w))
            }
            _ => {}
        }
    }
    for a in want.keys() {
        if !seen.contains(a) {
            return Err(format!("account {:?} is missing, it should have {:?}", a, want[a]));
        }
    }
    let w = if with_total && want.len() > 1 { Some(shown(&total(sums))) } else { None };
    if r.total != w {
        return Err(format!("the total is {:?} and should be {:?}", r.total, w));
    }
    Ok(())
}

/// The sums of all accounts, with those of their sub-accounts
pub fn tree_sums(sums: &BTreeMap<String, Bal>) -> BTreeMap<String, Bal> {
    let mut r: BTreeMap<String, Bal> = BTreeMap::new();
    for (a, b) in sums {
        for d in 1..=a.split(':').count() {
            let e = r.entry(truncate(a, d)).or_insert_with(Bal::new);
            *e = bsum(e, b);
        }
    }
    r
}
pub fn check_tree(out: &str, sums: &BTreeMap<String, Bal>, depth: Option<usize>, no_total: bool) -> Res {
    check_tree_of(out, sums, sums, depth, no_total)
}
/// The tree of these sums, which are those of raw after some conversion
pub fn check_tree_of(out: &str, sums: &BTreeMap<String, Bal>, raw: &BTreeMap<String, Bal>, depth: Option<usize>, no_total: bool) -> Res {
    let r = read_balance(out)?;
    let mut want: Vec<(Vec<String>, Bal)> = tree_sums(sums)
        .into_iter()
        .map(|(a, b)| (a.split(':').map(|x| x.to_string()).collect::<Vec<_>>(), b))
        .filter(|x| !x.1.is_empty() && depth.map_or(true, |d| x.0.len() <= d))
        .collect();
    want.sort_by(|a, b| a.0.cmp(&b.0));
    // also those below the limit of depth
    let all: Vec<Vec<String>> = tree_sums(sums)
        .into_iter()
        .chain(tree_sums(raw))
        .filter(|x| !x.1.is_empty())
        .map(|x| x.0.split(':').map(|x| x.to_string()).collect())
        .collect();
    let mut i = 0;
    for l in &r.lines {
        if i >= want.len() {
            return Err(format!("unexpected line {:?}", l));
        }
        let (name, bal) = &want[i];
        let spaces = l.indent / 2 * 2; // one more after an amount without commodity
        if spaces != 2 * name.len() {
            return Err(format!("{:?} is indented by {} and {:?} comes next", l.text, l.indent, name));
        }
        if l.amounts != shown(bal) {
            return Err(format!("{:?} has {:?} and {:?} should have {:?}", l.text, l.amounts, name, shown(bal)));
        }
        // an account may share the line of its parent when it is its only direct sub-account shown and
        // has the same balance, and it must when nothing else at all is below the parent
        let mut text = name.last().unwrap().clone();
        let mut k = i;
        loop {
            let n = want[k].0.len();
            let below = |x: &Vec<String>, top: &Vec<String>| x.len() > top.len() && x[..top.len()] == top[..];
            let children: Vec<usize> = (0..want.len())
                .filter(|c| want[*c].0.len() == n + 1 && below(&want[*c].0, &want[k].0))
                .collect();
            if children.len() != 1 || want[children[0]].1 != *bal {
                break;
            }
            let child = &want[children[0]].0;
            let must = all.iter().all(|x| !below(x, &want[k].0) || x == child || below(x, child));
            if text == l.text && !must {
                break;
            }
            if children[0] != k + 1 {
                return Err(format!("{:?} does not follow {:?}", child, want[k].0));
            }
            k = children[0];
            text.push(':');
            text.push_str(want[k].0.last().unwrap());
        }
        if text != l.text {
            return Err(format!("found {:?} where {:?} should be", l.text, text));
        }
        i = k + 1;
    }
    if i < want.len() {
        return Err(format!("{:?} is missing", want[i].0));
    }
    match &r.total {
        Some(_) if no_total => return Err("a total with --no-total".to_string()),
        Some(t) => {
            let w = shown(&total(sums));
            if *t != w {
                return Err(format!("the total is {:?} and should be {:?}", t, w));
            }
        }
        None if !no_total && r.lines.len() > 1 => return Err("there is no total".to_string()),
        _ => {}
    }
    Ok(())
}

fn strip(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
pub fn acct_display(p: &MPost) -> String {
    match p.kind {
        Kind::Real => p.acct.clone(),
        Kind::Virt => format!("({})", p.acct),
        Kind::Brack => format!("[{}]", p.acct),
    }
}
fn texts(p: &MPost) -> Vec<String> {
    let mut v = vec![strip(&format!("{}{}", acct_display(p), fmt_amt(&p.amt.q, &p.amt.c)))];
    if p.auto && p.amt.q.is_zero() {
        v.push(strip(&format!("{}0", acct_display(p))));
    }
    v
}
/// The register of these postings
pub fn check_register(out: &str, sel: &[(&MTxn, Vec<&MPost>)]) -> Res {
    let lines: Vec<String> = out.lines().map(strip).collect();
    let mut at = 0;
    let mut bal = Bal::new();
    for (t, posts) in sel {
        let mut used = vec![false; posts.len()];
        let mut best = (0, String::new());
        match place(&lines, at, t, posts, &mut used, 0, &bal, &mut best) {
            Some((a, b)) => {
                at = a;
                bal = b;
            }
            None => {
                return Err(format!(
                    "the rows of {} {:?} do not match what should be there, at line {}: {}",
                    t.date,
                    t.shown,
                    at + best.0 + 1,
                    best.1
                ))
            }
        }
    }
    if at < lines.len() {
        return Err(format!("unexpected row {}: {:?}", at + 1, lines[at]));
    }
    Ok(())
}
fn place(
    lines: &[String],
    at: usize,
    t: &MTxn,
    posts: &[&MPost],
    used: &mut Vec<bool>,
    done: usize,
    bal: &Bal,
    best: &mut (usize, String),
) -> Option<(usize, Bal)> {
    if done == posts.len() {
        return Some((at, bal.clone()));
    }
    let mut prefixes = vec![];
    if done == 0 {
        let date = t.date.format("%Y-%m-%d").to_string();
        prefixes.push(strip(&format!("{}{}", date, t.shown)));
        // a long description is cut short
        let n = t.shown.chars().count();
        if n > 36 {
            for k in 36..n + 1 {
                let cut: String = t.shown.chars().take(k).collect();
                prefixes.push(strip(&format!("{}{}..", date, cut)));
            }
        }
    } else {
        prefixes.push(String::new());
    }
    if at >= lines.len() {
        *best = (done, "the register ends too early".to_string());
        return None;
    }
    let mut tried: Vec<String> = vec![];
    for k in 0..posts.len() {
        if used[k] {
            continue;
        }
        for want in texts(posts[k]).iter().flat_map(|t| prefixes.iter().map(move |p| format!("{}{}", p, t))) {
            if tried.contains(&want) || !lines[at].starts_with(&want) {
                continue;
            }
            tried.push(want.clone());
            let mut b = bal.clone();
            badd(&mut b, &posts[k].amt.c, &posts[k].amt.q);
            let mut totals: Vec<String> = b.iter().map(|(c, x)| strip(&fmt_amt(x, c))).collect();
            if totals.is_empty() {
                totals.push("0".to_string());
            }
            let n = totals.len();
            if at + n > lines.len() {
                *best = (done, format!("totals missing, should be {:?}", totals));
                continue;
            }
            let mut got: Vec<String> = vec![lines[at][want.len()..].to_string()];
            got.extend(lines[at + 1..at + n].iter().cloned());
            got.sort();
            totals.sort();
            if got != totals {
                *best = (done, format!("after {:?} the totals are {:?} and should be {:?}", want, got, totals));
                continue;
            }
            used[k] = true;
            if let Some(r) = place(lines, at + n, t, posts, used, done + 1, &b, best) {
                return Some(r);
            }
            used[k] = false;
        }
    }
    if best.1.is_empty() {
        *best = (
            done,
            format!(
                "{:?}, possible are {:?}",
                lines[at],
                posts.iter().zip(used.iter()).filter(|x| !x.1).map(|x| texts(x.0)).collect::<Vec<_>>()
            ),
        );
    }
    None
}

/// The prices report
pub fn check_prices(out: &str, want: &[MPrice]) -> Res {
    let lines: Vec<&str> = out.lines().collect();
    if lines.len() != want.len() {
        return Err(format!("{} prices, there should be {}: {:?}", lines.len(), want.len(), want));
    }
    let fits = |l: &str, p: &MPrice| {
        p.alts.iter().any(|(c, a)| strip(l) == strip(&format!("{} {} {}", p.date.format("%Y-%m-%d"), c, fmt_amt(&a.q, &a.c))))
    };
    // a matching of lines and prices
    let mut owner: Vec<Option<usize>> = vec![None; lines.len()];
    fn augment(p: usize, adj: &Vec<Vec<usize>>, owner: &mut Vec<Option<usize>>, seen: &mut Vec<bool>) -> bool {
        for &l in &adj[p] {
            if seen[l] {
                continue;
            }
            seen[l] = true;
            if owner[l].is_none() || augment(owner[l].unwrap(), adj, owner, seen) {
                owner[l] = Some(p);
                return true;
            }
        }
        false
    }
    let adj: Vec<Vec<usize>> =
        want.iter().map(|p| (0..lines.len()).filter(|l| fits(lines[*l], p)).collect()).collect();
    for p in 0..want.len() {
        let mut seen = vec![false; lines.len()];
        if !augment(p, &adj, &mut owner, &mut seen) {
            return Err(format!("no line for the price {:?}", want[p]));
        }
    }
    Ok(())
}
/// A list, one name per line
pub fn check_list(out: &str, want: &BTreeSet<String>) -> Res {
    let lines: Vec<&str> = out.lines().collect();
    let got: BTreeSet<String> = lines.iter().map(|x| x.to_string()).collect();
    if got.len() != lines.len() {
        return Err(format!("something is listed twice: {:?}", lines));
    }
    if got != *want {
        return Err(format!(
            "listed but should not be: {:?}; missing: {:?}",
            got.difference(want).collect::<Vec<_>>(),
            want.difference(&got).collect::<Vec<_>>()
        ));
    }
    let mut sorted = lines.clone();
    sorted.sort();
    let mut sorted2 = lines.clone();
    sorted2.sort_by_key(|x| x.to_lowercase());
    if lines != sorted && lines != sorted2 {
        return Err(format!("not sorted: {:?}", lines));
    }
    Ok(())
}

/// A command which has to fail did
pub fn rejected(o: &Out, command: &str) -> Res {
    if o.ok {
        return Err(format!("{} succeeds and should fail", command));
    }
    if command == "check" {
        if o.out.trim_end().ends_with("OK") {
            return Err("check fails but says OK".to_string());
        }
    } else if !o.out.trim().is_empty() {
        return Err(format!("{} fails but prints {:?}", command, o.out));
    }
    if o.err.trim().is_empty() {
        return Err(format!("{} fails without a message", command));
    }
    Ok(())
}
pub fn accepted(o: &Out, command: &str) -> Res {
    if !o.ok {
        return Err(format!("{} fails: {}", command, o.err.chars().take(400).collect::<String>()));
    }
    if command == "check" && !o.out.trim_end().ends_with("OK") {
        return Err("check succeeds and does not say OK".to_string());
    }
    Ok(())
}
pub const COMMANDS: &[&str] = &["balance", "register", "accounts", "payees", "commodities", "prices", "check"];
