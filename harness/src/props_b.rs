//! C10 to C17
use crate::engine::*;
use crate::exec::World;
use crate::gen::*;
use crate::model::*;
use crate::props_a::*;
use crate::rates;
use crate::render::*;
use crate::report::*;
use crate::rich::*;
use num::{BigInt, Signed, Zero};
use std::collections::BTreeMap;

pub fn sorted_lines(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.lines().map(|x| x.to_string()).collect();
    v.sort();
    v
}
/// The arguments of all the reports, after the file
pub fn all_reports(cx: &mut Cx, v: &Vocab, target: Option<&str>) -> Vec<(String, Vec<String>)> {
    let s = gen_sel(cx, v, true);
    let args = sel_args(cx, &s);
    let mut r = vec![
        ("balance".to_string(), cat(&["--flat"], &args)),
        ("balance".to_string(), args.clone()),
        ("register".to_string(), args),
        ("register".to_string(), vec![]),
        ("accounts".to_string(), vec![]),
        ("payees".to_string(), vec![]),
        ("commodities".to_string(), vec![]),
        ("prices".to_string(), vec![]),
    ];
    if let Some(t) = target {
        r.push(("balance".to_string(), strs(&["--flat", "-X", t])));
        r.push(("balance".to_string(), strs(&["-X", t])));
    }
    r
}
/// Runs the same command on two journals: the verdicts and the outputs have to be the same
pub fn same_report(cx: &mut Cx, a: &str, b: &str, cmd: &str, args: &[String]) -> Result<bool, String> {
    let mut x = strs(&[cmd, "-f", a]);
    x.extend(args.iter().cloned());
    let o = cx.runv(&x)?;
    x[2] = b.to_string();
    let p = cx.runv(&x)?;
    if o.ok != p.ok {
        return Err(format!(
            "{} {:?} {} on {} and {} on {}",
            cmd,
            args,
            if o.ok { "succeeds" } else { "fails" },
            a,
            if p.ok { "succeeds" } else { "fails" },
            b
        ));
    }
    let same = if cmd == "check" {
        true
    } else if cmd == "prices" { sorted_lines(&o.out) == sorted_lines(&p.out) } else { o.out == p.out };
    if o.ok && !same {
        return Err(format!("{} {:?} prints different reports:\n{}\n-- and --\n{}", cmd, args, o.out, p.out));
    }
    if !o.ok && cmd != "check" && (!o.out.trim().is_empty() || !p.out.trim().is_empty()) {
        return Err(format!("{} fails and prints a report", cmd));
    }
    Ok(o.ok)
}
/// The prices of a model, for the conversion
pub fn price_list(m: &Model) -> Vec<rates::P> {
    m.prices
        .iter()
        .map(|p| rates::P {
            date: p.date,
            a: p.alts[0].0.clone(),
            b: p.alts[0].1.c.clone(),
            q: p.alts[0].1.q.clone(),
        })
        .collect()
}
pub fn today() -> Date {
    chrono::Utc::now().naive_utc().date()
}
/// A commodity for which there is only one way to convert
pub fn unique_target(cx: &mut Cx, m: &Model) -> Option<String> {
    let prices = price_list(m);
    if prices.is_empty() {
        return None;
    }
    let t = prices[cx.below(prices.len())].b.clone();
    if t.is_empty() {
        return None;
    }
    let r = rates::rates(&t, today(), &prices)?;
    if r.len() == 1 && r[0].values().all(|x| x.len() == 1) {
        Some(t)
    } else {
        None
    }
}
/// Makes a journal wrong in some way
pub fn spoil(cx: &mut Cx, j: &mut Vec<Entry>) -> bool {
    let idx: Vec<usize> = (0..j.len()).filter(|i| matches!(j[*i], Entry::Txn(_))).collect();
    if idx.is_empty() {
        return false;
    }
    let i = *cx.pick(&idx);
    if let Entry::Txn(t) = &mut j[i] {
        let with: Vec<usize> = (0..t.posts.len()).filter(|k| t.posts[*k].bal.is_some()).collect();
        if !with.is_empty() && cx.chance(70) {
            let k = *cx.pick(&with);
            let b = t.posts[k].bal.as_mut().unwrap();
            b.q = &b.q + qd(1, 2);
            return true;
        }
        let with: Vec<usize> =
            (0..t.posts.len()).filter(|k| t.posts[*k].amt.is_some() && t.posts[*k].kind == Kind::Real).collect();
        if !with.is_empty() {
            let k = *cx.pick(&with);
            let a = t.posts[k].amt.as_mut().unwrap();
            a.q = &a.q + qd(1, 2);
            return true;
        }
    }
    false
}

// ---------------------------------------------------------------- C10

/// Another order, in which transactions of the same date and automated transactions keep theirs
pub fn permute(cx: &mut Cx, j: &[Entry]) -> Vec<Entry> {
    let mut order: Vec<usize> = (0..j.len()).collect();
    cx.shuffle(&mut order);
    let mut groups: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (at, k) in order.iter().enumerate() {
        let key = match &j[*k] {
            Entry::Txn(t) => t.date.to_string(),
            Entry::Auto(_) => "auto".to_string(),
            _ => continue,
        };
        groups.entry(key).or_insert_with(Vec::new).push(at);
    }
    for places in groups.values() {
        let mut members: Vec<usize> = places.iter().map(|p| order[*p]).collect();
        members.sort();
        for (p, k) in places.iter().zip(members) {
            order[*p] = k;
        }
    }
    order.into_iter().map(|k| j[k].clone()).collect()
}
/// Moves parts of a journal to files
pub fn distribute(cx: &mut Cx, j: Vec<Entry>, depth: u32, n: &mut usize) -> Vec<Entry> {
    if j.len() < 2 || depth == 0 || !cx.chance(60) {
        return j;
    }
    let a = cx.below(j.len());
    let b = a + 1 + cx.below(j.len() - a);
    *n += 1;
    let dir = *cx.pick(&["", "sub/", "sub/deep/"]);
    let name = format!("{}inc{}.ledger", dir, n);
    let mut left = j;
    let mut mid = left.split_off(a);
    let right = mid.split_off(b - a);
    let mid = distribute(cx, mid, depth - 1, n);
    let mut r = left;
    r.push(Entry::Include(name, mid));
    r.extend(distribute(cx, right, depth - 1, n));
    r
}
fn c10(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.max_txns = 8;
    let r = rich(cx, &g, &Mix { autos: 25, asserts: 50, prices: 5, dirs: 35 });
    let mut a = r.j.clone();
    let bad = cx.chance(20) && spoil(cx, &mut a);
    let mut b = permute(cx, &a);
    let mut n = 0;
    if cx.chance(60) {
        b = distribute(cx, b, 3, &mut n);
    }
    let st = style(cx);
    let st = if cx.chance(40) { r.aliased(&st, 30) } else { st };
    // the entries are written in the same way in both
    write_all(cx, &st, "a/main.ledger", &a);
    write_all(cx, &st, "b/main.ledger", &b);
    let want = evaluate(&a, true);
    cx.label(if want.is_ok() { "accepted" } else { "rejected" });
    if bad {
        cx.label("spoilt");
    }
    if n > 0 {
        cx.label("over files");
    }
    cx.nontrivial = a.len() > 2;
    match want {
        Err(e) => {
            let cmd = *cx.pick(COMMANDS);
            if same_report(cx, "a/main.ledger", "b/main.ledger", cmd, &[])? {
                return Err(format!("{} succeeds and should fail: {}", cmd, e));
            }
            Ok(())
        }
        Ok(m) => {
            let t = unique_target(cx, &m);
            if t.is_some() {
                cx.label("with -X");
            }
            let v = vocab(&m);
            let mut reports = all_reports(cx, &v, t.as_deref());
            if !cx.chance(25) {
                cx.shuffle(&mut reports);
                reports.truncate(3);
            }
            for (cmd, args) in reports {
                if !same_report(cx, "a/main.ledger", "b/main.ledger", &cmd, &args)? {
                    return Err(format!("{} fails and should succeed", cmd));
                }
            }
            let o = cx.run(&["reg", "-f", "b/main.ledger"])?;
            accepted(&o, "reg")?;
            check_register(&o.out, &select(&m, &Sel::default()))
        }
    }
}

// ---------------------------------------------------------------- C11

const DIRS: &[&str] = &["", "d1", "d1/d2", "e x", "e x/f", "g"];

/// The path of a file as seen from a directory
fn relative(cx: &mut Cx, from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').filter(|x| !x.is_empty()).collect();
    let t: Vec<&str> = to.split('/').filter(|x| !x.is_empty()).collect();
    let mut k = 0;
    while k < f.len() && k + 1 < t.len() && f[k] == t[k] {
        k += 1;
    }
    if k > 0 && cx.chance(15) {
        k -= 1; // up and down again
    }
    let mut v: Vec<String> = vec![];
    if cx.chance(15) {
        v.push(".".to_string());
    }
    for _ in k..f.len() {
        v.push("..".to_string());
    }
    for x in &t[k..] {
        v.push(x.to_string());
    }
    v.join(if cx.chance(4) { "//" } else { "/" })
}
struct Tree {
    n: usize,
    /// how often entries go to another file
    pct: u64,
    /// the path of each file and those above it
    files: Vec<(String, Vec<String>)>,
    includes: usize,
    twice: bool,
    /// no file twice
    once: bool,
}
fn dir_of(path: &str) -> String {
    match path.rfind('/') {
        Some(k) => path[..k].to_string(),
        None => String::new(),
    }
}
fn new_file(cx: &mut Cx, t: &mut Tree) -> String {
    t.n += 1;
    let d = *cx.pick(DIRS);
    let (a, b) = if cx.chance(75) {
        ("i", ".ledger")
    } else {
        *cx.pick(&[("i", ""), ("ñ", ".dat"), ("i", " #1.ledger"), ("i", "; old.ledger"), ("-i", ".l"), (".i", ".ledger"), ("I ", ".LEDGER"), ("i", ".tar.gz"), ("#", ""), ("i", "%20.ledger"), ("i", "  x.ledger"), ("~i", "~"), ("$i", "!.ledger"), ("'i", "'.ledger")])
    };
    if d.is_empty() {
        format!("{}{}{}", a, t.n, b)
    } else {
        format!("{}/{}{}{}", d, a, t.n, b)
    }
}
/// Distributes entries over a tree of files
fn tree(cx: &mut Cx, j: Vec<Entry>, path: &str, above: &[String], depth: u32, t: &mut Tree) -> Vec<Entry> {
    let mut chain = above.to_vec();
    chain.push(path.to_string());
    t.files.push((path.to_string(), chain.clone()));
    let mut out = vec![];
    let mut rest = j;
    while !rest.is_empty() {
        let n = 1 + cx.below(rest.len());
        let tail = rest.split_off(n);
        let part = rest;
        rest = tail;
        if depth == 0 || !cx.chance(t.pct) {
            out.extend(part);
            continue;
        }
        t.includes += 1;
        if cx.chance(30) {
            // a wildcard
            t.n += 1;
            let k = t.n;
            let (dir, pattern, names): (String, String, Vec<String>) = match cx.draw(8) {
                7 => {
                    let mut names: Vec<String> = (1..13).map(|i| format!("m{}.ledger", i)).collect();
                    names.sort();
                    (format!("w{}", k), "m*.ledger".to_string(), names)
                }
                4 => (format!("w{}", k), "2020-0?.ledger".to_string(), strs(&["2020-01.ledger", "2020-02.ledger", "2020-0x.ledger"])),
                5 => (format!("w{} ñ", k), "[!x]*.l*".to_string(), strs(&["a b.ledger", "c.l", "ñ.log"])),
                6 => (format!("w{}", k), "a*b*c".to_string(), strs(&["a1b1c", "abc", "abxxc"])),
                0 => (format!("w{}", k), "*.ledger".to_string(), strs(&["a.ledger", "b2.ledger", "c.ledger"])),
                1 => (format!("w{}", k), "p?.dat".to_string(), strs(&["p1.dat", "p2.dat", "pz.dat"])),
                2 => (format!("w{}", k), "[ab]*".to_string(), strs(&["a", "a.x", "bcd"])),
                _ => (format!("w{}", k), "*/x.ledger".to_string(), strs(&["d1/x.ledger", "d2/x.ledger", "d3/x.ledger"])),
            };
            let mut files = vec![];
            let mut part = part;
            let m = if names.len() > 3 { 2 + cx.below(names.len() - 1) } else { 1 + cx.below(3) };
            for (i, name) in names.iter().take(m).enumerate() {
                let size = if i + 1 == m { part.len() } else { cx.below(part.len() + 1) };
                let tail = part.split_off(size);
                let p = format!("{}/{}", dir, name);
                let inner = tree(cx, part, &p, &chain, depth - 1, t);
                part = tail;
                let rel = relative(cx, &dir_of(path), &p);
                files.push((rel, inner));
            }
            // others, which do not match
            cx.file(&format!("{}/other.txt", dir), "2020-01-01 no\n    A    1000000 X\n    B\n");
            if cx.chance(40) {
                let near: &[&str] = match pattern.as_str() {
                    "m*.ledger" => &["M1.ledger", "xm1.ledger", "m1.ledger~"],
                    "2020-0?.ledger" => &["2020-01x.ledger", "2020-0.ledger", "2020-01.Ledger"],
                    "[!x]*.l*" => &["x1.ledger", "c.L", "sub/c.l"],
                    "a*b*c" => &["Abc", "abcd", "acb"],
                    "*.ledger" => &["D.LEDGER", "e.ledger2", "sub/f.ledger"],
                    "p?.dat" => &["P1.dat", "p12.dat", "p.dat", "p1.DAT"],
                    "[ab]*" => &["Ab", "c", "sub/a"],
                    _ => &["x.ledger", "d1/X.ledger", "d1/e/x.ledger"],
                };
                let name = *cx.pick(near);
                cx.file(&format!("{}/{}", dir, name), "2020-01-01 no\n    A    1000000 X\n    B\n");
                cx.label("a file which nearly matches");
            }
            let rel = relative(cx, &dir_of(path), &format!("{}/{}", dir, pattern));
            out.push(Entry::Glob(rel, files));
            cx.label("wildcard");
        } else {
            let p = new_file(cx, t);
            let inner = tree(cx, part, &p, &chain, depth - 1, t);
            let rel = relative(cx, &dir_of(path), &p);
            out.push(Entry::Include(rel, inner.clone()));
            if !t.once && cx.chance(15) {
                // once more
                let rel = relative(cx, &dir_of(path), &p);
                out.push(Entry::Include(rel, inner));
                t.twice = true;
            }
        }
    }
    out
}
/// Over several files, some of them included by wildcards
pub fn over_files(cx: &mut Cx, j: Vec<Entry>, main: &str, depth: u32) -> Vec<Entry> {
    let mut t = Tree { n: 0, pct: 55, files: vec![], includes: 0, twice: false, once: true };
    let j = tree(cx, j, main, &[], depth, &mut t);
    for d in DIRS.iter().filter(|d| !d.is_empty()) {
        cx.file(&format!("{}/.keep", d), "");
    }
    j
}
/// Adds a line to the file with this path
fn add_to(j: &mut Vec<Entry>, here: &str, path: &str, e: &Entry, at: usize) {
    if here == path {
        let k = at % (j.len() + 1);
        j.insert(k, e.clone());
        return;
    }
    for x in j.iter_mut() {
        match x {
            Entry::Include(f, inner) => {
                let p = norm(&format!("{}/{}", dir_of(here), f));
                add_to(inner, &p, path, e, at);
            }
            Entry::Glob(_, files) => {
                for (f, inner) in files.iter_mut() {
                    let p = norm(&format!("{}/{}", dir_of(here), f));
                    add_to(inner, &p, path, e, at);
                }
            }
            _ => {}
        }
    }
}
fn c11(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.max_txns = 8;
    let r = rich(cx, &g, &Mix { autos: 15, asserts: 0, prices: 4, dirs: 30 });
    let main = cx.pick(&["main.ledger", "d1/main.ledger", "d1/d2/main.ledger"]).to_string();
    let brackets = cx.chance(5);
    let main = if brackets { "h [1]/main*.ledger".to_string() } else { main };
    let deep = cx.chance(8);
    let mut t = Tree { n: 0, pct: if deep { 80 } else { 55 }, files: vec![], includes: 0, twice: false, once: false };
    let mut j = tree(cx, r.j.clone(), &main, &[], if deep { 9 } else { 4 }, &mut t);
    // directories which paths go through
    for d in DIRS.iter().filter(|d| !d.is_empty()) {
        cx.file(&format!("{}/.keep", d), "");
    }
    let file = match cx.draw(3) {
        0 => main.clone(),
        1 => format!("./{}", main),
        2 if cx.chance(20) => format!(".//{}", main.replace("/", "//")),
        _ => cx.exec.work().join(&main).to_str().unwrap().to_string(),
    };
    cx.nontrivial = t.includes > 0;
    if t.files.iter().any(|f| f.1.len() > 2) {
        cx.label("nested");
    }
    let fail = !brackets && cx.chance(30);
    if fail {
        let k = cx.below(t.files.len());
        let (path, chain) = t.files[k].clone();
        let at = cx.below(8);
        let line = match cx.draw(5) {
            0 => {
                cx.label("missing file");
                relative(cx, &dir_of(&path), "d1/this is missing.ledger")
            }
            1 => {
                let to = cx.pick(&chain).clone();
                let dir = dir_of(&path);
                let link = if dir.is_empty() { "link.ledger".to_string() } else { format!("{}/link.ledger", dir) };
                let target = cx.exec.work().join(&to).to_str().unwrap().to_string();
                if cx.exec.work().join(&link).parent().unwrap().exists() {
                    cx.exec.symlink(&target, &link);
                    cx.log.push_str(&format!("--- {} is a link to {}\n", link, to));
                    cx.label("cycle through a link");
                    "link.ledger".to_string()
                } else {
                    relative(cx, &dir_of(&path), &to)
                }
            }
            2 => {
                // a wildcard which matches it
                cx.label("cycle through a wildcard");
                let to = cx.pick(&chain).clone();
                let mut rel = relative(cx, &dir_of(&path), &to);
                let c = rel.pop().unwrap();
                rel.push_str(if c == 'r' { "*" } else { "?" });
                rel
            }
            _ => {
                cx.label("cycle");
                let to = cx.pick(&chain).clone();
                relative(cx, &dir_of(&path), &to)
            }
        };
        add_to(&mut j, &main, &path, &Entry::Comment(format!("include {}", line)), at);
    }
    let st = style(cx);
    let st = if cx.chance(30) { r.aliased(&st, 30) } else { st };
    write_all(cx, &st, &main, &j);
    if cx.chance(2) {
        // the journal itself is missing, or a directory
        cx.label("no journal");
        let cmd = *cx.pick(COMMANDS);
        let file = *cx.pick(&["nothing.ledger", "d1", "d1/nothing", "nowhere/main.ledger", "main.ledger/x"]);
        let o = cx.run(&[cmd, "-f", file])?;
        return rejected(&o, cmd);
    }
    let want = evaluate(&j, true);
    if fail || want.is_err() {
        cx.label("rejected");
        let cmd = *cx.pick(COMMANDS);
        let o = cx.run(&[cmd, "-f", &file])?;
        return rejected(&o, cmd);
    }
    let m = want.unwrap();
    if t.twice {
        cx.label("a file included twice");
    }
    let o = cx.run(&["reg", "-f", &file])?;
    accepted(&o, "reg")?;
    check_register(&o.out, &select(&m, &Sel::default()))?;
    match cx.draw(4) {
        0 => {
            let o = cx.run(&["prices", "-f", &file])?;
            accepted(&o, "prices")?;
            check_prices(&o.out, &m.prices)?;
        }
        1 => {
            let o = cx.run(&["bal", "-f", &file, "--flat"])?;
            accepted(&o, "bal")?;
            check_flat(&o.out, &account_sums(&m, &Sel::default()), None, true)?;
        }
        k => {
            if !has_expr_money(&j) {
                let (a, p, c) = names(&j);
                let (cmd, want) = match (k, cx.draw(2)) {
                    (2, _) => ("accounts", a),
                    (_, 0) => ("payees", p),
                    _ => ("commodities", c),
                };
                let o = cx.run(&[cmd, "-f", &file])?;
                accepted(&o, cmd)?;
                check_list(&o.out, &want)?;
            }
        }
    }
    // as pasted
    if t.includes > 0 && cx.chance(50) {
        let flat: Vec<Entry> = flat(&j).into_iter().cloned().collect();
        write_all(cx, &st, "pasted.ledger", &flat);
        let v = vocab(&m);
        let reports = all_reports(cx, &v, None);
        let (cmd, args) = cx.pick(&reports).clone();
        same_report(cx, "pasted.ledger", &file, &cmd, &args)?;
    }
    Ok(())
}
/// Commodities which are only named in expressions
pub fn has_expr_money(j: &[Entry]) -> bool {
    flat(j).iter().any(|e| match e {
        Entry::Auto(a) => {
            a.posts.iter().any(|p| matches!(&p.amt, AutoAmt::Expr(e) if has(e, &|e| matches!(e, crate::expr::E::Money(_)))))
                || a.query.terms.iter().any(
                    |t| matches!(&t.1, crate::expr::Term::Expr(e) if has(e, &|e| matches!(e, crate::expr::E::Money(_)))),
                )
        }
        _ => false,
    })
}

// ---------------------------------------------------------------- C12

pub fn convert(b: &Bal, target: &str, rates: &BTreeMap<String, num::BigRational>) -> Bal {
    let mut r = Bal::new();
    for (c, x) in b {
        match rates.get(c) {
            Some(q) if c != target => badd(&mut r, target, &(x * q)),
            _ => badd(&mut r, c, x),
        }
    }
    r
}
/// All the acceptable choices of rates, if they are not too many
pub fn choices(target: &str, day: Date, prices: &[rates::P]) -> Option<Vec<BTreeMap<String, Q>>> {
    let all = rates::rates(target, day, prices)?;
    let mut res: Vec<BTreeMap<String, Q>> = vec![];
    for m in all {
        let n: usize = m.values().map(|x| x.len()).product();
        if n > 64 || res.len() + n > 128 {
            return None;
        }
        for k in 0..n {
            let mut k = k;
            let mut one = BTreeMap::new();
            for (c, qs) in &m {
                one.insert(c.clone(), qs[k % qs.len()].clone());
                k /= qs.len();
            }
            res.push(one);
        }
    }
    Some(res)
}
fn future(cx: &mut Cx, d: &mut Date) {
    *d = Date::from_ymd(2150, 1, 1) + chrono::Duration::days(cx.range(0, 30));
}
fn c12(cx: &mut Cx) -> Res {
    let day = today();
    let r = c12_on(cx, day);
    if today() != day {
        // midnight has passed
        cx.label("not used: midnight");
        return Ok(());
    }
    r
}
fn c12_on(cx: &mut Cx, day: Date) -> Res {
    let mut g = gen_g(cx);
    g.comms = pick_some(cx, COMMODITIES, 2, 6);
    g.costs = *cx.pick(&[0, 10, 30]);
    g.exchange = *cx.pick(&[0, 10]);
    g.virt = 10;
    let chain = cx.chance(7);
    if chain {
        g.comms = pick_some(cx, COMMODITIES, 5, 14);
        g.exchange = 0;
    }
    let mut r = rich(cx, &g, &Mix { autos: 10, asserts: 0, prices: if chain { 1 } else { 8 }, dirs: 25 });
    if chain {
        // each commodity is priced in the next one
        let comms: Vec<String> = g.comms.iter().filter(|c| !c.is_empty()).cloned().collect();
        let same = if cx.chance(30) { Some(gen_date(cx)) } else { None };
        for w in comms.windows(2) {
            let (a, b) = if cx.chance(50) { (0, 1) } else { (1, 0) };
            let date = same.unwrap_or_else(|| gen_date(cx));
            let p = PriceLine { date, c: w[a].clone(), price: Amt { q: g.q(cx), c: w[b].clone() } };
            let at = cx.below(r.j.len() + 1);
            r.j.insert(at, Entry::Price(p));
        }
        cx.label("a chain of prices");
    }
    for e in r.j.iter_mut() {
        match e {
            Entry::Price(p) if cx.chance(12) => future(cx, &mut p.date),
            Entry::Price(p) if cx.chance(12) => {
                p.date = day + chrono::Duration::days(cx.range(-1, 1));
                cx.label("price about today");
            }
            Entry::Txn(t) if cx.chance(6) => future(cx, &mut t.date),
            _ => {}
        }
    }
    let m = match model(cx, &r.j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    let st = if cx.chance(40) { r.aliased(&st, 30) } else { st };
    write_all(cx, &st, MAIN, &r.j);
    let v = vocab(&m);
    let prices = price_list(&m);
    // as if it were another day
    let other = if cx.chance(10) {
        let d = if !prices.is_empty() && cx.chance(70) { cx.pick(&prices).date } else { gen_date(cx) };
        let d = d + chrono::Duration::days(cx.range(-1, 1));
        let d = if d < Date::from_ymd(1970, 1, 2) { Date::from_ymd(1970, 1, 2) } else { d };
        cx.label("on another day");
        Some(d)
    } else {
        None
    };
    let day = other.unwrap_or(day);
    for _ in 0..2 {
        // a commodity of the journal
        let (_, _, comms) = names(&r.j);
        let comms: Vec<String> = comms.into_iter().filter(|c| !c.is_empty()).collect();
        let target = if !prices.is_empty() && cx.chance(80) {
            let p = cx.pick(&prices).clone();
            if cx.chance(50) {
                p.a
            } else {
                p.b
            }
        } else if !comms.is_empty() {
            cx.pick(&comms).clone()
        } else {
            return Ok(());
        };
        if target.is_empty() {
            continue;
        }
        let mut named = target.clone();
        if let Some(s) = r.comms.get(&target) {
            if cx.chance(50) {
                named = cx.pick(s).clone();
                cx.label("by another name");
            }
        }
        let s = if cx.chance(50) { gen_sel(cx, &v, false) } else { Sel::default() };
        let flat = cx.chance(60);
        let depth = if cx.chance(20) { Some(1 + cx.below(3)) } else { None };
        let mut args = strs(&["bal", "-f", MAIN, "-X", &named]);
        if flat {
            args.push("--flat".to_string());
        }
        if let Some(d) = depth {
            args.extend(strs(&["--depth", &d.to_string()]));
        }
        args.extend(sel_args(cx, &s));
        let o = if other.is_some() {
            let second = *cx.pick(&[0, 1, 43200, 86399]);
            let time = Some(day.and_hms(0, 0, 0).timestamp() + second);
            cx.run_worlds(&[(args.clone(), World { time, ..World::default() })])?.remove(0)
        } else {
            cx.runv(&args)?
        };
        accepted(&o, "bal")?;
        let ch = match choices(&target, day, &prices) {
            Some(c) => c,
            None => {
                cx.label("too many possible rates");
                continue;
            }
        };
        if ch.len() == 1 {
            cx.label("rates are unique");
        }
        let sums = account_sums(&m, &s);
        let mut first: Option<String> = None;
        let mut ok = false;
        for rates in &ch {
            let conv: BTreeMap<String, Bal> =
                sums.iter().map(|(a, b)| (a.clone(), convert(b, &target, rates))).collect();
            if rates.keys().any(|c| sums.values().any(|b| b.contains_key(c) && *c != target)) {
                cx.nontrivial = true;
                cx.label("something is converted");
            }
            let r = if flat { check_flat(&o.out, &conv, depth, true) } else { check_tree_of(&o.out, &conv, &sums, depth, false) };
            match r {
                Ok(()) => {
                    ok = true;
                    break;
                }
                Err(e) => {
                    first.get_or_insert(e);
                }
            }
        }
        if !ok {
            return Err(format!(
                "the balance in {} is not right with any of {} acceptable choices of rates: {}",
                target,
                ch.len(),
                first.unwrap()
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

fn c13(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.comms = pick_some(cx, COMMODITIES, 2, 5);
    g.costs = 45;
    g.same_cost = 6;
    g.exchange = 35;
    g.max_txns = 8;
    let mut r = rich(cx, &g, &Mix { autos: 10, asserts: 15, prices: 6, dirs: 25 });
    for e in r.j.iter_mut() {
        if let Entry::Price(p) = e {
            match cx.draw(20) {
                0 => p.price.q = Q::zero(),
                1 => p.price.q = -p.price.q.clone(),
                // in itself
                2 => p.price.c = p.c.clone(),
                _ => {}
            }
        }
    }
    let m = match model(cx, &r.j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let mut j = r.j.clone();
    if cx.chance(30) {
        let mut n = 0;
        j = distribute(cx, j, 2, &mut n);
    }
    let st = style(cx);
    let st = if cx.chance(40) { r.aliased(&st, 30) } else { st };
    write_all(cx, &st, MAIN, &j);
    cx.nontrivial = m.prices.len() > 1;
    if m.prices.iter().any(|p| p.alts.len() > 1) {
        cx.label("implied");
    }
    let total_cost = flat(&j).iter().any(
        |e| matches!(e, Entry::Txn(t) if t.posts.iter().any(|p| matches!(p.cost, Some(Cost::Total(_))) && p.amt.as_ref().map_or(false, |a| a.q.is_negative()))),
    );
    if total_cost {
        cx.label("sold at a total cost");
    }
    let mut args = strs(&["prices", "-f", MAIN]);
    if cx.chance(20) {
        args.push("--no-balance-check".to_string());
    }
    let o = cx.runv(&args)?;
    accepted(&o, "prices")?;
    check_prices(&o.out, &m.prices)
}

// ---------------------------------------------------------------- C14

fn nasty(cx: &mut Cx) -> Q {
    let x = match cx.draw(10) {
        0 => qd(cx.range(0, 300) * 10 + 5, 3), // half cents
        1 => qd(cx.range(1, 99), 2),           // between 0 and 1
        2 => qd(cx.range(1, 12), 3),           // nearly nothing
        3 => q(cx.range(1, 99)) - qd(cx.range(1, 9), 3), // rounds up to a whole number
        4 => {
            let n = cx.range(1, 40) as usize;
            Q::from(num::pow(BigInt::from(10), n)) - qd(cx.range(0, 999), 3)
        }
        5 => {
            let k = cx.range(4, 30) as usize;
            Q::new(BigInt::from(5), num::pow(BigInt::from(10), 3)) - Q::new(BigInt::from(1), num::pow(BigInt::from(10), k))
        }
        6 => {
            let k = cx.range(4, 30) as usize;
            Q::new(BigInt::from(5), num::pow(BigInt::from(10), 3)) + Q::new(BigInt::from(1), num::pow(BigInt::from(10), k))
        }
        7 => qd(cx.range(1, 100000), 1),
        8 => q(cx.range(1, 2000)),
        _ => gen_q(cx),
    };
    signed(cx, x)
}
fn c14(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.max_txns = 5;
    g.tags = 0;
    let mut txns = vec![];
    let nz = |cx: &mut Cx| loop {
        let x = nasty(cx);
        if !x.is_zero() {
            return x;
        }
    };
    for id in 0..1 + cx.below(5) {
        let c = g.comm(cx);
        let mut posts = vec![];
        for _ in 0..1 + cx.below(3) {
            let a = g.acct(cx);
            let x = nz(cx);
            let mut p = Post::new(&a, Kind::Real, Some(Amt { q: x, c: c.clone() }));
            if cx.chance(35) {
                if let Some(d) = g.other_comm(cx, &c) {
                    let u = nz(cx).abs();
                    p.cost = Some(if cx.chance(50) { Cost::Unit(Amt { q: u, c: d }) } else { Cost::Total(Amt { q: u, c: d }) });
                }
            }
            posts.push(p);
        }
        let a = g.acct(cx);
        posts.push(Post::new(&a, Kind::Real, None));
        if cx.chance(30) {
            let x = nasty(cx);
            posts.push(Post::new(&a, Kind::Virt, Some(Amt { q: x, c })));
        }
        txns.push(Txn {
            date: gen_date(cx),
            desc: cx.pick(&g.descs).clone(),
            payee: None,
            header_comment: None,
            comments: vec![],
            posts,
            id,
        });
    }
    let mut j = wrap_txns(&txns);
    for c in g.comms.clone() {
        if !c.is_empty() && cx.chance(20) {
            j.insert(0, Entry::Commodity(CommodityDir { name: c, aliases: vec![], note: None }));
        }
    }
    if cx.chance(40) {
        // divisions which do not end
        use crate::expr::*;
        let n = *cx.pick(&[3, 7, 6, 9, 11, 600, 13]);
        let mut query = Query::default();
        query.terms.push((Join::Nothing, Term::Word(".".to_string())));
        let div = E::Bin(Op::Div, Box::new(E::Amount), Box::new(E::Num(q(n))));
        let e = if cx.chance(50) { E::Neg(Box::new(div)) } else { div };
        let at = cx.below(j.len() + 1);
        j.insert(
            at,
            Entry::Auto(Auto {
                query,
                comments: vec![],
                posts: vec![AutoPost { acct: "Part".to_string(), kind: Kind::Virt, amt: AutoAmt::Expr(e) }],
            }),
        );
        cx.label("thirds and the like");
    }
    let m = match model(cx, &j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    write_all(cx, &st, MAIN, &j);
    let s = Sel::default();
    let half = |x: &Q| {
        let h = x * q(200);
        h.is_integer() && !(x * q(100)).is_integer()
    };
    for t in &m.txns {
        for p in &t.posts {
            if half(&p.amt.q) {
                cx.label("half a cent");
            }
            if p.amt.q.is_negative() && p.amt.q > q(-1) {
                cx.label("between -1 and 0");
            }
            if p.amt.q.abs() > q(i64::MAX) {
                cx.label("more than 64 bits");
            }
            if !(&p.amt.q * q(100)).is_integer() {
                cx.nontrivial = true;
            }
        }
    }
    let mut kinds = vec!["reg", "flat", "tree", "prices", "X"];
    cx.shuffle(&mut kinds);
    for k in kinds.into_iter().take(3) {
        match k {
            "reg" => {
                let o = cx.run(&["reg", "-f", MAIN])?;
                accepted(&o, "reg")?;
                check_register(&o.out, &select(&m, &s))?;
            }
            "flat" => {
                let o = cx.run(&["bal", "--flat", "-f", MAIN])?;
                accepted(&o, "bal")?;
                check_flat(&o.out, &account_sums(&m, &s), None, true)?;
            }
            "tree" => {
                let o = cx.run(&["bal", "-f", MAIN])?;
                accepted(&o, "bal")?;
                check_tree(&o.out, &account_sums(&m, &s), None, false)?;
            }
            "prices" => {
                let o = cx.run(&["prices", "-f", MAIN])?;
                accepted(&o, "prices")?;
                check_prices(&o.out, &m.prices)?;
            }
            _ => {
                let prices = price_list(&m);
                if prices.is_empty() {
                    continue;
                }
                let target = cx.pick(&prices).b.clone();
                let ch = match choices(&target, today(), &prices) {
                    Some(c) if c.len() == 1 && !target.is_empty() => c,
                    _ => continue,
                };
                let o = cx.run(&["bal", "--flat", "-f", MAIN, "-X", &target])?;
                accepted(&o, "bal")?;
                let conv: BTreeMap<String, Bal> =
                    account_sums(&m, &s).iter().map(|(a, b)| (a.clone(), convert(b, &target, &ch[0]))).collect();
                check_flat(&o.out, &conv, None, true)?;
                cx.label("with -X");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15(cx: &mut Cx) -> Res {
    let g = gen_g(cx);
    let mut r = rich(cx, &g, &Mix { autos: 25, asserts: 40, prices: 4, dirs: 25 });
    if cx.chance(10) {
        spoil(cx, &mut r.j);
    }
    let plain = Style::plain();
    let mut st = Style::fancy(*cx.pick(&[30, 10, 60, 90]));
    st.crlf = cx.chance(30);
    st.no_final_newline = cx.chance(30);
    if st.crlf {
        cx.label("CRLF");
    }
    if st.no_final_newline {
        cx.label("no final newline");
    }
    write_all(cx, &plain, "a/main.ledger", &r.j);
    write_all(cx, &st, "b/main.ledger", &r.j);
    cx.nontrivial = true;
    match evaluate(&r.j, true) {
        Err(_) => {
            cx.label("rejected");
            let cmd = *cx.pick(COMMANDS);
            if same_report(cx, "a/main.ledger", "b/main.ledger", cmd, &[])? {
                return Err(format!("{} succeeds and should fail", cmd));
            }
            Ok(())
        }
        Ok(m) => {
            let v = vocab(&m);
            let mut reports = all_reports(cx, &v, None);
            cx.shuffle(&mut reports);
            for (cmd, args) in reports.into_iter().take(3) {
                if !same_report(cx, "a/main.ledger", "b/main.ledger", &cmd, &args)? {
                    return Err(format!("{} fails and should succeed", cmd));
                }
            }
            let o = cx.run(&["reg", "-f", "b/main.ledger"])?;
            accepted(&o, "reg")?;
            check_register(&o.out, &select(&m, &Sel::default()))?;
            let o = cx.run(&["prices", "-f", "b/main.ledger"])?;
            accepted(&o, "prices")?;
            check_prices(&o.out, &m.prices)
        }
    }
}

// ---------------------------------------------------------------- C16

const TOKENS: &[&str] = &[
    "2020-01-01", "2020/1/1", "=", "@", "@@", "10", "-5.5", "USD", "$", "\"My coin\"", "\"", "'", "(", ")", "[", "]",
    ";", "|", "*", "!", "\n", "\n    ", "  ", " ", "\t", "Assets:Bank", "Expenses", "account ", "payee ", "commodity ",
    "include ", "alias ", "P ", "tag ", "assert ", "note ", "expr ", "and", "or", "not", "amount", "any(", "abs(", "/a/", "%", "@x",
    ",", ".", "-", "--", "+", "é", "\u{0}", "\u{feff}", "\r", "\u{a0}", "\u{2028}", "{", "}", "<", ">", "~", "1e5", "0", "00", "99999999999999999999",
    "2020-02-30", "2020-13-01", "12:30:00", "default", "format 1.00", ":a:", "key: v", "#", "\\", "to_date(", "has_tag(", "=~", "==", "!=",
];
fn soup(cx: &mut Cx) -> String {
    let mut s = String::new();
    for _ in 0..1 + cx.below(60) {
        s.push_str(*cx.pick(TOKENS));
        if cx.chance(20) {
            s.push(' ');
        }
    }
    s
}
fn mangle(cx: &mut Cx, text: &str) -> String {
    let mut chars: Vec<char> = text.chars().collect();
    for _ in 0..cx.len(1, 6, 45) {
        let n = chars.len();
        let at = cx.below(n + 1);
        match cx.draw(8) {
            0 if n > 0 => {
                let k = at.min(n - 1);
                let len = 1 + cx.below(4);
                let e = (k + len).min(n);
                chars.drain(k..e);
            }
            1 | 2 => {
                let t: Vec<char> = cx.pick(TOKENS).chars().collect();
                for (i, c) in t.into_iter().enumerate() {
                    chars.insert(at + i, c);
                }
            }
            3 if n > 0 => {
                let k = at.min(n - 1);
                let t = *cx.pick(TOKENS);
                chars[k] = t.chars().next().unwrap();
            }
            4 => {
                // a line twice, or somewhere else
                let s: String = chars.iter().collect();
                let mut lines: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
                let k = cx.below(lines.len());
                let l = lines[k].clone();
                if cx.chance(50) {
                    lines.remove(k);
                }
                let to = cx.below(lines.len() + 1);
                lines.insert(to, l);
                chars = lines.join("\n").chars().collect();
            }
            5 => {
                let s: String = chars.iter().collect();
                let mut lines: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
                let k = cx.below(lines.len());
                lines.remove(k);
                chars = lines.join("\n").chars().collect();
            }
            6 => {
                chars.truncate(at);
            }
            _ if n > 1 => {
                let k = at.min(n - 2);
                chars.swap(k, k + 1);
            }
            _ => {}
        }
    }
    chars.into_iter().collect()
}
/// What a posting line cannot be: the text after the account
pub fn corruption(cx: &mut Cx) -> (String, &'static str) {
    let n = cx.range(1, 999);
    let c = *cx.pick(&["USD", "EUR", "$", "\"My coin\""]);
    let d = *cx.pick(&["ACME", "£", "Gold"]);
    let s = |x: String| x;
    match cx.draw(39) {
        26 => (s(format!(". {}", c)), "no number"),
        27 => (s(format!("{} {}", cx.pick(&["-", "-.", ".-", "--"]), c)), "no number"),
        28 => (s(format!("{} {}", c, cx.pick(&[".", "-", "-.", ""]))), "no number"),
        29 => (s(format!("--{} {}", n, c)), "two signs"),
        30 => {
            let k = cx.range(1, 99);
            let t = match cx.draw(5) {
                0 => format!(".-{} {}", k, c),
                1 => format!("{}.-{} {}", n, k, c),
                2 => format!("{} .-{}", c, k),
                3 => format!("{}- {}", n, c),
                _ => format!("{}-{} {}", n, k, c),
            };
            (s(t), "a sign within a number")
        }
        31 => (s(format!("{}e{} {}", n, cx.range(1, 9), c)), "an exponent"),
        32 => (s(format!("{}{}{:03} {}", n, cx.pick(&["'", "_", " "]), cx.below(1000), c)), "digits grouped"),
        33 => (s(format!("{}/{} {}", n, cx.range(1, 99), c)), "a fraction"),
        34 => (s(format!("{} {}", cx.pick(&["½", "١٢", "²", "Ⅳ", "५"]), c)), "other digits"),
        35 => (s(format!("{} {} @@@ {} {}", n, c, n, d)), "@@@"),
        36 => (s(format!("{} {} {} {}", n, c, cx.pick(&["@", "@@", "="]), d)), "a commodity without number"),
        37 => (s(format!("{} {} {} {} {}", n, c, cx.pick(&["@", "@@", "="]), cx.pick(&[".", "-", "--5", "1.2.3", "1-1"]), d)), "no number"),
        38 => (s(format!("@ {} {}", n, c)), "a cost without amount"),
        22 => (s(format!("{},{:02} {}", cx.range(1, 99999999), cx.below(100), c)), "a decimal comma"),
        23 => (s(format!("{},{} {}", cx.range(1, 9999), cx.below(1000), c)), "a decimal comma"),
        24 => (s(format!("{},{:03},{:03} {}", n, cx.below(1000), cx.below(1000), c)), "digits grouped with commas"),
        25 => (s(format!("{}{},{:03}.{:02}", c, n, cx.below(1000), cx.below(100))), "digits grouped with commas"),
        0 => (s(format!("{},{:03} {}", n, cx.below(1000), c)), "digits grouped with commas"),
        1 => (s(format!("{},{:03}.{:02} {}", n, cx.below(1000), cx.below(100), c)), "digits grouped with commas"),
        2 => (s(format!("{} {} {} {}", n, c, cx.range(1, 99), d)), "two amounts"),
        3 => (s(format!("{} {} {}", n, c, cx.range(1, 99))), "an amount and a number"),
        4 => (s(format!("{} {} @", n, c)), "a dangling @"),
        5 => (s(format!("{} {} @@", n, c)), "a dangling @@"),
        6 => (s(format!("{} {} =", n, c)), "a dangling ="),
        7 => (s(format!("{} {} @ 2 {} @ 3 {}", n, c, d, d)), "two costs"),
        8 => (s(format!("{} {} @ 2 {} @@ 3 {}", n, c, d, d)), "two costs"),
        9 => (s(format!("{} {} = 2 {} = 3 {}", n, c, c, c)), "two assertions"),
        10 => (s(format!("{} {} hello", n, c)), "trailing text"),
        11 => (s(format!("{}.5.3 {}", n, c)), "two decimal points"),
        12 => (s(format!("({} + 5) {}", n, c)), "a value expression"),
        13 => (s(format!("({} * 2)", n)), "a value expression"),
        14 => (s(format!("({} {})", n, c)), "a value expression"),
        15 => (s(format!("{} {} (x)", n, c)), "trailing text"),
        16 => (s(format!("{} {} {}", n, cx.range(1, 99), c)), "two numbers"),
        17 => (s(format!("{} {} @ 2 {} 5", n, c, d)), "trailing text after the cost"),
        18 => (s(format!("{} {} @ 2 {} trailing", n, c, d)), "trailing text after the cost"),
        19 => (s(format!("{} {} = 2 {} trailing", n, c, c)), "trailing text after the assertion"),
        20 => (s(format!("{} {} {}", n, c, d)), "two commodities"),
        _ => (s(format!("{} {} @ = 5 {}", n, c, c)), "a cost which is missing"),
    }
}
/// An entry which cannot be read, other than for an amount of a posting
fn bad_entry(cx: &mut Cx) -> (Vec<String>, &'static str) {
    let c = cx.pick(COMMS_).to_string();
    let d = cx.pick(COMMS_).to_string();
    let day = gen_date(cx).format("%Y-%m-%d").to_string();
    let n = cx.range(1, 999);
    let s = |x: String| vec![x];
    match cx.draw(8) {
        0..=2 => {
            // a line below a directive which is no property of it
            let all = ["note", "isin", "alias", "check", "assert", "payee", "default", "format"];
            let (dir, good): (&str, &[&str]) = match cx.draw(4) {
                0 => ("account", &["note", "isin", "alias", "check", "assert", "payee", "default"]),
                1 => ("commodity", &["note", "alias", "format", "default"]),
                2 => ("payee", &["alias"]),
                _ => ("tag", &["check", "assert"]),
            };
            let mut words: Vec<String> = all.iter().filter(|w| !good.contains(w)).map(|w| w.to_string()).collect();
            for w in &["aliases", "Alias", "NOTE", "notes", "not", "asserts", "checks", "defaults", "formats", "Payee", "value", "nomarket", "eval", "Assets", "foo", "é", "-", "=", "isin:"] {
                words.push(w.to_string());
            }
            let mut lines = vec![];
            for k in 0..cx.len(0, 3, 50) {
                lines.push(match *cx.pick(good) {
                    "default" => "    default".to_string(),
                    "payee" => format!("    payee zz{}", k),
                    "alias" => format!("    alias some{}", k),
                    w => format!("    {} some text {}", w, k),
                });
            }
            let at = cx.below(lines.len() + 1);
            match cx.draw(6) {
                5 if good.contains(&"default") => lines.insert(at, format!("    default {} {}", cx.pick(&words), n)),
                0 => {
                    // a whole transaction, indented
                    lines.insert(at, format!("    {} indented", day));
                    lines.insert(at + 1, format!("        Assets:Bank    {} {}", n, c));
                    lines.insert(at + 2, "        Rest".to_string());
                }
                1 => lines.insert(at, format!("    Assets:Bank    {} {}", n, c)),
                2 => lines.insert(at, format!("    {}", cx.pick(&words))),
                _ => lines.insert(at, format!("    {} {}", cx.pick(&words), cx.pick(&["x", "some text", "5 EUR", "(amount > 5)"]))),
            }
            let name = match dir {
                "account" => "Assets:Extra",
                "commodity" => "EXTRA",
                _ => "extra",
            };
            lines.insert(0, format!("{} {}", dir, name));
            (lines, "a line below a directive")
        }
        3 => {
            let word = *cx.pick(&[
                "acount Assets:Bank", "accounts Assets:Bank", "accountAssets", "Account Assets:Bank", "commodities EUR", "Commodity EUR", "comodity EUR",
                "payees x", "Payee x", "pay x", "tags x", "Tag x", "include", "includes x", "include_once x", "Include other.ledger",
                "apply account X", "apply tag x", "end apply account", "alias a=b", "assert 1 == 1", "bucket Assets", "capture x y",
                "check 1 == 1", "comment", "test", "def x=1", "define x=1", "eval 1", "expr 1", "python", "year 2020", "Y2020", "Y 2020",
                "A Assets:Bank", "D 1000.00 EUR", "N EUR", "C 1 EUR = 2 USD", "~ Monthly", "~ every 2 weeks", "h", "b", "o 2020", "x", "(x)", "\"x\"",
                "@", "-", "+", "&", "|", "'", "é", "ñandú", "account", "payee", "tag", "commodity", "commodity EUR USD", "P", "p", "c", "t", "a", "i",
                "[2020-01-01]", "/x/", "\\x", "=", "<", ">", "$5", "€ 5", "default",
            ]);
            let mut v = s(word.to_string());
            if cx.chance(30) || word == "=" {
                v.push(format!("    Assets:Bank    {} {}", n, c));
                if cx.chance(50) {
                    v.push("    Rest".to_string());
                }
            }
            (v, "an unknown entry")
        }
        4 => {
            let x = match cx.draw(14) {
                0 => format!("P {} {} {}", day, c, d),
                1 => format!("P {} {} {}", day, c, n),
                2 => format!("P {} {} {}", c, n, d),
                3 => format!("P {} {} {}", day, n, d),
                4 => format!("P {} {} {},{:03} {}", day, c, n, cx.below(1000), d),
                5 => format!("P {} {} {},{:03}{}", day, c, n, cx.below(1000), d),
                6 => format!("P {} {} {},{:03}.{:02}{}", day, c, n, cx.below(1000), cx.below(100), d),
                7 => format!("P {} {} {}.{}.{}{}{}", day, c, n, cx.below(100), cx.below(100), cx.pick(&["", " "]), d),
                8 => format!("P {} {} {} {} trailing", day, c, n, d),
                9 => format!("P {} {} {} {} {}", day, c, n, n, d),
                10 => format!("P {} {} = {} {}", day, c, n, d),
                11 => format!("P {} {} ({} {})", day, c, n, d),
                12 => format!("P {} {} {}..{}{}", day, c, n, n, d),
                _ => format!("P {} {} {}{} {}", day, c, cx.pick(&[".", "+", "--", ","]), n, d),
            };
            (s(x), "a price")
        }
        5 => {
            let y = cx.range(1990, 2022);
            let bad = match cx.draw(9) {
                0 => format!("{}-02-{}", y, cx.range(30, 31)),
                1 => format!("{}-{:02}-31", y, cx.pick(&[2, 4, 6, 9, 11])),
                2 => format!("{}-{:02}-{:02}", y, cx.range(13, 99), cx.range(1, 28)),
                3 => format!("{}-{:02}-{:02}", y, cx.range(1, 12), cx.range(32, 99)),
                4 => format!("{}-00-{:02}", y, cx.range(1, 28)),
                5 => format!("{}-{:02}-00", y, cx.range(1, 12)),
                6 => format!("{}-02-29", cx.pick(&[1900, 2001, 2019, 2021, 2100, 2022])),
                7 => format!("{}-{:02}", y, cx.range(1, 12)),
                _ => format!("{}-{:02}-{:03}", y, cx.range(1, 12), cx.range(1, 28)),
            };
            let sep = *cx.pick(&["-", "/", "."]);
            let bad = bad.replace("-", sep);
            match cx.draw(4) {
                0 => (s(format!("P {} {} {} {}", bad, c, n, d)), "an impossible date"),
                1 => (vec![format!("{}={} x", day, bad), format!("    Assets    {} {}", n, c), "    Rest".to_string()], "an impossible date"),
                _ => (vec![format!("{} x", bad), format!("    Assets    {} {}", n, c), "    Rest".to_string()], "an impossible date"),
            }
        }
        6 => {
            // below something which has no lines below
            let top = match cx.draw(3) {
                0 => format!("P {} AAA {} BBB", day, n),
                1 => "; a comment".to_string(),
                _ => "* a comment".to_string(),
            };
            (vec![top, format!("    Assets:Bank    {} {}", n, c)], "an indented line")
        }
        _ => {
            let mut v = vec![format!("= {}", cx.pick(&["Assets", "zzz nothing", "/./", "@nobody"]))];
            v.push(match cx.draw(7) {
                0 => "    (Budget)    (amount *)".to_string(),
                1 => "    (Budget)    (amount * 2".to_string(),
                2 => "    (Budget)    (amount * 2) trailing".to_string(),
                3 => format!("    (Budget)    {},{:03} {}", n, cx.below(1000), c),
                4 => format!("    (Budget)    {} {} {}", n, c, d),
                5 => "    (Budget)    (unknown_thing * 2)".to_string(),
                _ => format!("    (Budget)    {} {} {}", n, c, n),
            });
            (v, "an automated posting")
        }
    }
}
const COMMS_: &[&str] = &["EUR", "USD", "$", "€", "ACME"];
fn c16(cx: &mut Cx) -> Res {
    let kind = cx.draw(12);
    if kind >= 10 {
        // an entry which cannot be read among others which can
        let mut g = gen_g(cx);
        g.max_txns = 4;
        g.tags = 20;
        let r = rich(cx, &g, &Mix { autos: 20, asserts: 10, prices: 2, dirs: 15 });
        let st = style(cx);
        let (lines, what) = bad_entry(cx);
        cx.label(what);
        let at = cx.below(r.j.len() + 1);
        let (a, b) = r.j.split_at(at);
        let mut text = String::new();
        if !a.is_empty() {
            text = render(cx, &st, a);
            text = text.trim_end_matches(|c| c == '\r' || c == '\n').to_string();
            text.push_str("\n\n");
        }
        text.push_str(&lines.join("\n"));
        text.push_str(if cx.chance(50) { "\n\n" } else { "\n" });
        if !b.is_empty() {
            text.push_str(&render(cx, &st, b));
        }
        cx.file(MAIN, &text);
        cx.nontrivial = true;
        let mut cmds = COMMANDS.to_vec();
        cx.shuffle(&mut cmds);
        for cmd in cmds.into_iter().take(3) {
            let o = cx.run(&[cmd, "-f", MAIN])?;
            rejected(&o, cmd).map_err(|e| format!("{} ({})", e, what))?;
        }
        return Ok(());
    }
    if kind < 3 {
        // one posting which cannot be read, and another without amount which would hide it
        let g = gen_g(cx);
        let txns = gen_txns(cx, &g);
        let st = style(cx);
        let (text, what) = corruption(cx);
        cx.label(what);
        let name = cx.pick(&["Assets:Bank", "Expenses", "(Budget)", "[Budget]", "Café au lait"]).to_string();
        let comment = if cx.chance(25) { "  ; see :tag:" } else { "" };
        let gap = *cx.pick(&["  ", "    ", "\t", " \t"]);
        let bad_line = format!("    {}{}{}{}", name, gap, text, comment);
        let mut lines = vec!["2020-01-15 bad".to_string()];
        if cx.chance(50) {
            lines.push("    Other    5 USD".to_string());
        }
        if cx.chance(50) {
            lines.push(bad_line);
            lines.push("    Rest".to_string());
        } else {
            lines.push("    Rest".to_string());
            lines.push(bad_line);
        }
        let mut all = vec![];
        let at = cx.below(txns.len() + 1);
        for (k, t) in txns.iter().enumerate() {
            if k == at {
                all.push(lines.join("\n"));
            }
            all.push(txn(cx, &st, t).join("\n"));
        }
        if at == txns.len() {
            all.push(lines.join("\n"));
        }
        let nl = if cx.chance(15) { "\r\n" } else { "\n" };
        let mut text = all.join("\n\n");
        if cx.chance(80) {
            text.push('\n');
        }
        let text = text.replace("\n", nl);
        cx.file(MAIN, &text);
        cx.nontrivial = true;
        let mut cmds = COMMANDS.to_vec();
        cx.shuffle(&mut cmds);
        for cmd in cmds.into_iter().take(3) {
            let o = cx.run(&[cmd, "-f", MAIN])?;
            rejected(&o, cmd).map_err(|e| format!("{} ({})", e, what))?;
        }
        return Ok(());
    }
    let text = if kind == 3 {
        cx.label("tokens");
        soup(cx)
    } else {
        let mut g = gen_g(cx);
        g.max_txns = 3;
        g.tags = 30;
        let r = rich(cx, &g, &Mix { autos: 40, asserts: 30, prices: 2, dirs: 15 });
        let st = if cx.chance(50) { Style::fancy(25) } else { Style::plain() };
        let t = render(cx, &st, &r.j);
        if kind == 4 {
            cx.label("unchanged");
            t
        } else {
            cx.label("mangled");
            mangle(cx, &t)
        }
    };
    if kind == 9 && cx.chance(40) {
        // not text
        let mut b = text.clone().into_bytes();
        for _ in 0..1 + cx.below(3) {
            let at = cx.below(b.len() + 1);
            b.insert(at, 128 + cx.draw(128) as u8);
        }
        cx.mix(&b);
        cx.exec.write(MAIN, &b);
        cx.log.push_str(&format!("--- file {} (bytes)\n{:?}\n", MAIN, String::from_utf8_lossy(&b)));
        cx.label("not text");
    } else {
        cx.file(MAIN, &text);
    }
    cx.nontrivial = true;
    let mut verdicts = vec![];
    for cmd in COMMANDS {
        let o = cx.run(&[cmd, "-f", MAIN])?;
        verdicts.push((cmd, o.ok));
        if o.ok {
            accepted(&o, cmd)?;
        } else {
            rejected(&o, cmd)?;
        }
    }
    cx.label(if verdicts[0].1 { "accepted" } else { "rejected" });
    if verdicts.iter().any(|v| v.1 != verdicts[0].1) {
        return Err(format!("the commands do not agree: {:?}", verdicts));
    }
    // a report of what was accepted can be restricted
    if verdicts[0].1 && cx.chance(20) {
        for args in [["bal", "-f", MAIN, "--flat"], ["reg", "-f", MAIN, "a"], ["bal", "-f", MAIN, "--real"]].iter() {
            let o = cx.run(args)?;
            if !o.ok {
                return Err(format!("check succeeds, but {:?} fails: {}", args, o.err));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn c17(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.comms = pick_some(cx, COMMODITIES, 3, 8);
    g.accts = pick_some(cx, ACCOUNTS, 3, 12);
    g.max_txns = 8;
    g.max_posts = 6;
    g.costs = 30;
    g.exchange = 30;
    let mut r = rich(cx, &g, &Mix { autos: 25, asserts: 10, prices: 10, dirs: 50 });
    // ties between prices
    let ties: Vec<Entry> = r.j.iter().filter(|e| matches!(e, Entry::Price(_))).cloned().collect();
    for e in ties {
        if let Entry::Price(mut p) = e {
            if cx.chance(40) {
                p.price.q = &p.price.q + q(cx.range(1, 5));
                let at = cx.below(r.j.len() + 1);
                r.j.insert(at, Entry::Price(p));
            }
        }
    }
    // patterns which overlap, of payees and of accounts
    if cx.chance(40) {
        for (n, p) in [("First", "."), ("Second", "^.*$"), ("Third", "[a-z]"), ("Fourth", "a|e|o")].iter() {
            let at = cx.below(r.j.len() + 1);
            r.j.insert(at, Entry::Payee(PayeeDir { name: n.to_string(), aliases: strs(&[p, "[A-Z]"]), note: None }));
        }
        cx.label("overlapping payee patterns");
    }
    if cx.chance(40) {
        for n in ["Found:One", "Found:Two", "Found:Three"].iter() {
            let at = cx.below(r.j.len() + 1);
            r.j.insert(
                at,
                Entry::Account(AccountDir {
                    name: n.to_string(),
                    aliases: vec![],
                    payees: strs(&["a", "e", ".*"]),
                    note: None,
                }),
            );
        }
        for e in r.j.iter_mut() {
            if let Entry::Txn(t) = e {
                for p in t.posts.iter_mut() {
                    if p.bal.is_none() && cx.chance(40) {
                        p.acct = "Expenses:Unknown".to_string();
                    }
                }
            }
        }
        cx.label("overlapping account patterns");
    }
    if cx.chance(10) {
        spoil(cx, &mut r.j);
    }
    let st = style(cx);
    let st = if cx.chance(50) { r.aliased(&st, 40) } else { st };
    write_all(cx, &st, MAIN, &r.j);
    cx.nontrivial = true;
    let v = match evaluate(&r.j, false) {
        Ok(m) => vocab(&m),
        Err(_) => vocab(&Model::default()),
    };
    let comms: Vec<String> = g.comms.iter().filter(|c| !c.is_empty()).cloned().collect();
    let x = cx.pick(&comms).clone();
    // not a commodity of the journal, perhaps
    let (_, _, known) = names(&r.j);
    let target = if known.contains(&x) { Some(x) } else { None };
    let mut reports = all_reports(cx, &v, target.as_deref());
    reports.push(("check".to_string(), vec![]));
    let all = cx.chance(5);
    if !all {
        // mostly those which convert
        let keep = cx.chance(60);
        let conv: Vec<_> = reports.iter().filter(|r| r.1.contains(&"-X".to_string())).cloned().collect();
        cx.shuffle(&mut reports);
        reports.truncate(2);
        if keep {
            reports.extend(conv);
        }
    }
    let before = cx.exec.snapshot();
    for (cmd, args) in reports {
        let mut a = strs(&[&cmd, "-f", MAIN]);
        a.extend(args);
        let first = cx.runv(&a)?;
        cx.label(if first.ok { "accepted" } else { "rejected" });
        for k in 0..3 {
            let o = if k == 0 && all { cx.run_real(&a)? } else { cx.runv(&a)? };
            if o.ok != first.ok {
                return Err(format!("{:?} succeeds or fails by chance", a));
            }
            if o.out != first.out {
                return Err(format!("{:?} prints\n{}\nand then\n{}", a, first.out, o.out));
            }
        }
    }
    let after = cx.exec.snapshot();
    if before != after {
        let diff: Vec<_> = before
            .iter()
            .chain(&after)
            .filter(|x| !before.contains(x) || !after.contains(x))
            .map(|x| &x.0)
            .collect();
        return Err(format!("the commands changed files: {:?}", diff));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C10", quick: 12_000, thorough: 800_000, run: c10,
            rule: "random journals with transactions, automated transactions, prices, assertions, account, commodity and payee directives with aliases; the same entries in a random other order (transactions of one date and automated transactions keep theirs) and distributed over nested files, 20% made wrong; verdicts and all reports of both are compared, and the register with the model; non-trivial with more than two entries",
            assumptions: &["prices of one pair on one day are not reordered where -X is compared", "automated transactions keep their relative order"] },
        Prop { id: "C11", quick: 20_000, thorough: 1_000_000, run: c11,
            rule: "random journals distributed over trees of files in several directories, up to 5 deep, through relative paths with . and .., wildcards and repeated includes, 30% with a cycle (plain, through a link, a wildcard, another spelling) or a missing file; compared with the model and with the pasted text; non-trivial with at least one include",
            assumptions: &["wildcards match at least one file"] },
        Prop { id: "C12", quick: 25_000, thorough: 1_200_000, run: c12,
            rule: "random journals of 2-6 commodities with prices from directives, costs and exchanges, some in the future; two balance reports each with -X in flat or tree form, with queries, dates and depth, the requested name also as alias; compared with exact conversion at any of the rates the reference finds acceptable; non-trivial when something is converted",
            assumptions: &["the requested commodity is in the journal", "positive prices", "at most 128 acceptable choices of rates"] },
        Prop { id: "C13", quick: 40_000, thorough: 2_000_000, run: c13,
            rule: "random journals with price directives, unit and total costs on both signs, exchanges of two and more commodities, assertions and automated postings, over files; the prices report is matched one to one with the model's list; non-trivial with more than one price",
            assumptions: &["positive prices"] },
        Prop { id: "C14", quick: 40_000, thorough: 2_000_000, run: c14,
            rule: "random journals whose amounts are half cents, near half cents, between -1 and 1, whole numbers less a little, up to 1e40 and quotients that do not end; register, flat and tree balance, prices and -X compared with exact rounding; non-trivial when some amount needs rounding",
            assumptions: &["the precision of a commodity cannot be changed from a journal"] },
        Prop { id: "C15", quick: 15_000, thorough: 1_200_000, run: c15,
            rule: "random journals written twice: plainly, and with random white space, tabs, comments, blank lines, date separators, times, effective dates, marks, quotes, commodity positions, CRLF, no final newline; verdicts and reports of both are compared with each other and with the model; every case is non-trivial",
            assumptions: &["white space between the parts of header and price lines is spaces"] },
        Prop { id: "C16", quick: 25_000, thorough: 1_500_000, run: c16,
            rule: "30% journals with one posting line that is wrong in one of 20 ways next to a posting without amount, which every command has to reject; 60% random journals mangled by 1-6 changes (characters, tokens, lines), also bytes that are not text; 10% token sequences; all seven commands have to end, agree, and print a report or fail with a message; every case is non-trivial",
            assumptions: &["20 s of CPU time and 6 GB of memory per case"] },
        Prop { id: "C17", quick: 5_000, thorough: 500_000, run: c17,
            rule: "random journals with many commodities, accounts, aliases, equal-dated prices of one pair, overlapping payee and account patterns; each of several commands four times, in one process (with new hash seeds each) and in new processes; every case is non-trivial",
            assumptions: &[] },
    ]
}
