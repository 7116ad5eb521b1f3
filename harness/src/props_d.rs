//! C29 to C31
use crate::engine::*;
use crate::exec::{Faults, Out, Sink, Stdin, World};
use crate::expr::*;
use crate::gen::*;
use crate::model::*;
use crate::props_a::*;
use crate::props_b::*;
use crate::render::*;
use crate::report::*;
use crate::rich::*;

// ---------------------------------------------------------------- C29

/// The files of a journal
fn files_of(path: &str, j: &[Entry], v: &mut Vec<String>) {
    v.push(path.to_string());
    let dir = match path.rfind('/') {
        Some(k) => path[..k + 1].to_string(),
        None => String::new(),
    };
    for e in j {
        if let Entry::Include(f, inner) = e {
            files_of(&norm(&format!("{}{}", dir, f)), inner, v);
        }
    }
}
/// Whether a message names this line of this file
fn names_place(err: &str, file: &str, line: usize) -> bool {
    let base = file.rsplit('/').next().unwrap();
    let mut rest = err;
    while let Some(k) = rest.find(base) {
        rest = &rest[k + base.len()..];
        let after = rest.trim_start_matches(|c| c == '"' || c == '\'');
        let n: String = after.chars().skip(1).take_while(|c| c.is_ascii_digit()).collect();
        if after.starts_with(':') && n == line.to_string() {
            return true;
        }
    }
    false
}
fn c29(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.max_txns = 6;
    let r = rich(cx, &g, &Mix { autos: 50, asserts: 30, prices: 4, dirs: 30 });
    let mut j = r.j.clone();
    if model(cx, &j).is_none() {
        return Ok(());
    }
    let mut st = style(cx);
    st.crlf = cx.chance(15);
    st.no_final_newline = cx.chance(15);
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let kind = cx.draw(10);
    if kind < 7 {
        // a line which cannot be read
        let mark = "Kwyjibo";
        let block: Vec<String> = match kind {
            0 | 1 | 2 | 3 => {
                let (text, what) = corruption(cx);
                cx.label(what);
                let mut v = vec![format!("2020-02-0{} a bad one", 1 + cx.below(9))];
                for _ in 0..cx.below(3) {
                    v.push(cx.pick(&["    Other    5 USD", "    ; a comment", "    Other    -5 USD  ; x", "    (Virtual)    1 EUR"]).to_string());
                }
                let gap = *cx.pick(&["  ", "    ", "\t"]);
                let comment = match cx.draw(10) {
                    7 | 8 => "  ; why".to_string(),
                    9 => format!("  ; why {}", "and how ".repeat(cx.below(60))),
                    _ => String::new(),
                };
                v.push(format!("    {}{}{}{}", mark, gap, text, comment));
                for _ in 0..cx.below(3) {
                    v.push(cx.pick(&["    Rest", "    Other    5 USD", "    ; a comment"]).to_string());
                }
                v
            }
            4 | 5 => {
                cx.label("unknown entry");
                let s = *cx.pick(&["hello", "~ monthly", "Bucket", "?", "year 2020", "ñandú", "/x/", "-", "@", "\"x\"", "[a]", "&"]);
                vec![format!("{} {}{}", s, mark, " or not".repeat(if cx.chance(15) { cx.below(60) } else { 0 }))]
            }
            _ => {
                cx.label("unknown line of a directive");
                let mut v = vec![if cx.chance(50) { "account Some account".to_string() } else { "commodity XYZ".to_string() }];
                for _ in 0..cx.below(3) {
                    v.push(cx.pick(&["    note hello", "    ; a comment"]).to_string());
                }
                let long = if cx.chance(15) { cx.below(60) } else { 0 };
                v.push(format!("    {} {}{}", cx.pick(&["colour", "Alias", "aliases", "x"]), mark, " or not".repeat(long)));
                v
            }
        };
        let at = cx.below(j.len() + 1);
        j.insert(at, Entry::Comment(block.join(nl)));
        let mut n = 0;
        if cx.chance(60) {
            j = distribute(cx, j, 3, &mut n);
        }
        let main = cx.pick(&["main.ledger", "books/main.ledger"]).to_string();
        write_all(cx, &st, &main, &j);
        let mut files = vec![];
        files_of(&main, &j, &mut files);
        let mut place = None;
        for f in &files {
            let text = std::fs::read_to_string(cx.exec.work().join(f)).unwrap();
            for (k, l) in text.split('\n').enumerate() {
                if l.contains(mark) {
                    place = Some((f.clone(), k + 1, l.trim().to_string()));
                }
            }
        }
        let (file, line, text) = place.unwrap();
        if file != main {
            cx.label("in an included file");
        }
        cx.nontrivial = line > 1;
        let cmd = *cx.pick(COMMANDS);
        let o = cx.run(&[cmd, "-f", &main])?;
        if o.ok {
            return Err(format!("{} succeeds", cmd));
        }
        if !names_place(&o.err, &file, line) {
            return Err(format!("the message does not say {}, line {}: {}", file, line, o.err));
        }
        if !o.err.contains(&text) {
            return Err(format!("the message does not show the line {:?}: {}", text, o.err));
        }
        return Ok(());
    }
    // a transaction which is not right
    let idx: Vec<usize> = (0..j.len())
        .filter(|i| match &j[*i] {
            Entry::Txn(t) => t.posts.iter().any(|p| p.kind == Kind::Real && (p.amt.is_some() || p.bal.is_some())),
            _ => false,
        })
        .collect();
    if idx.is_empty() {
        return Ok(());
    }
    let i = *cx.pick(&idx);
    let mut want: Vec<String> = vec![];
    if let Entry::Txn(t) = &mut j[i] {
        t.desc = cx.pick(&["Zebra 77", "The wrong one", "año (2)"]).to_string();
        t.payee = None;
        want.push(format!("{} {}", t.date, t.desc));
        let with: Vec<usize> = (0..t.posts.len()).filter(|k| t.posts[*k].bal.is_some() && t.posts[*k].amt.is_some()).collect();
        if !with.is_empty() && cx.chance(70) {
            cx.label("assertion");
            let k = *cx.pick(&with);
            let b = t.posts[k].bal.as_mut().unwrap();
            let actual = b.clone();
            let by = cx.range(1, 500);
            b.q = &b.q + qd(by, 2);
            if b.q != q(0) {
                want.push(fmt_amt(&b.q, &b.c));
            }
            if actual.q != q(0) {
                want.push(fmt_amt(&actual.q, &actual.c));
            }
        } else {
            cx.label("does not balance");
            let a = t.posts[0].acct.clone();
            let c = g.comm(cx);
            let by = cx.range(1, 500);
            let p = if cx.chance(25) && t.posts.iter().all(|p| p.amt.is_some()) {
                // two omitted amounts
                t.posts.push(Post::new(&a, Kind::Real, None));
                Post::new("Second", Kind::Real, None)
            } else {
                let kind = if cx.chance(70) { Kind::Real } else { Kind::Brack };
                Post::new(&a, kind, Some(Amt { q: qd(by, 2), c }))
            };
            t.posts.push(p);
            for p in &t.posts {
                want.push(p.acct.clone());
            }
            if t.posts.iter().any(|p| p.bal.is_some()) || evaluate(&[Entry::Txn(t.clone())], true).is_ok() {
                cx.label("not used: still right");
                return Ok(());
            }
        }
    }
    if evaluate(&j, true).is_ok() {
        cx.label("not used: still right");
        return Ok(());
    }
    cx.nontrivial = idx.len() > 1;
    let mut n = 0;
    if cx.chance(40) {
        j = distribute(cx, j, 3, &mut n);
    }
    write_all(cx, &st, MAIN, &j);
    let cmd = *cx.pick(COMMANDS);
    let o = cx.run(&[cmd, "-f", MAIN])?;
    if o.ok {
        return Err(format!("{} succeeds", cmd));
    }
    for w in want {
        if !o.err.contains(&w) {
            return Err(format!("the message does not show {:?}: {}", w, o.err));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C30

/// One option, in one of its spellings
fn spelt(cx: &mut Cx, o: &(&'static str, Option<&'static str>, Option<String>)) -> Vec<String> {
    match &o.2 {
        None => vec![o.0.to_string()],
        Some(v) => {
            let short = o.1;
            match cx.draw(4) {
                1 if short.is_some() => vec![short.unwrap().to_string(), v.clone()],
                2 if short.is_some() => vec![format!("{}{}", short.unwrap(), v)],
                3 if !o.0.is_empty() => vec![format!("{}={}", o.0, v)],
                _ if o.0.is_empty() => vec![short.unwrap().to_string(), v.clone()],
                _ => vec![o.0.to_string(), v.clone()],
            }
        }
    }
}
fn c30(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.virt = 30;
    g.max_txns = 8;
    let mut r = rich(cx, &g, &Mix { autos: 10, asserts: 40, prices: 4, dirs: 20 });
    if cx.chance(20) {
        spoil(cx, &mut r.j);
    }
    let st = style(cx);
    let path = cx.pick(&["main.ledger", "my books/main.ledger"]).to_string();
    let mut n = 0;
    let j = if cx.chance(30) { distribute(cx, r.j.clone(), 2, &mut n) } else { r.j.clone() };
    if n > 0 {
        cx.label("over files");
    }
    write_all(cx, &st, &path, &j);
    cx.file("other/nothing.txt", "");
    let absolute = cx.exec.work().join(&path).to_str().unwrap().to_string();
    let m = evaluate(&r.j, false).unwrap_or_default();
    let v = vocab(&m);
    let dates: Vec<Date> = r.j.iter().filter_map(|e| if let Entry::Txn(t) = e { Some(t.date) } else { None }).collect();
    let names: &[&[&str]] = &[
        &["balance", "bal"],
        &["register", "reg"],
        &["balance", "bal"],
        &["commodities", "currencies"],
        &["accounts"],
        &["payees"],
        &["prices"],
        &["check"],
    ];
    let cmd = *cx.pick(names);
    let mut opts: Vec<(&'static str, Option<&'static str>, Option<String>)> = vec![("--file", Some("-f"), Some(path.clone()))];
    let mut dated = |cx: &mut Cx| {
        let d = *cx.pick(&dates) + chrono::Duration::days(cx.range(-1, 1));
        // written in the same way in both
        write_cli_date(cx, d)
    };
    if cx.chance(40) && !dates.is_empty() {
        opts.push(("--begin", Some("-b"), Some(dated(cx))));
    }
    if cx.chance(40) && !dates.is_empty() {
        opts.push(("--end", Some("-e"), Some(dated(cx))));
    }
    if cx.chance(30) {
        opts.push(("--real", None, None));
    }
    if cx.chance(30) {
        opts.push(("--no-balance-check", None, None));
    }
    if cx.chance(30) {
        opts.push(("--depth", Some("-d"), Some((1 + cx.below(3)).to_string())));
    }
    if cmd[0] == "balance" {
        if cx.chance(40) {
            opts.push(("--flat", None, None));
        }
        if cx.chance(30) {
            opts.push(("--no-total", None, None));
        }
        if cx.chance(40) {
            if let Some(t) = unique_target(cx, &m) {
                opts.push(("", Some("-X"), Some(t)));
            }
        }
    }
    let query = if (cmd[0] == "balance" || cmd[0] == "register") && cx.chance(50) {
        let qy = gen_query(cx, &v, 3, true);
        qy.args(cx, &mut |_, c| c.to_string())
    } else {
        vec![]
    };
    cx.nontrivial = opts.len() > 2;
    let mut outs = vec![];
    for _ in 0..3 {
        let mut o = opts.clone();
        let k = cx.draw(8);
        o[0].2 = Some(match k {
            0 => format!("./{}", path),
            1 => format!("other/../{}", path),
            2 => absolute.clone(),
            3 => format!(".//{}", path),
            _ => path.clone(),
        });
        cx.shuffle(&mut o);
        let mut args = vec![cx.pick(cmd).to_string()];
        let at = if cx.chance(50) { o.len() } else { cx.below(o.len() + 1) };
        for (k, x) in o.iter().enumerate() {
            if k == at {
                args.extend(query.iter().cloned());
            }
            args.extend(spelt(cx, x));
        }
        if at == o.len() {
            args.extend(query.iter().cloned());
        } else if !query.is_empty() {
            cx.label("options after the query");
        }
        let mut q = cx.runv(&args)?;
        if cmd[0] == "check" {
            // which repeats the path it was given
            let given = opts[0].2.clone().unwrap_or_default();
            let given = match k {
                0 => format!("./{}", given),
                1 => format!("other/../{}", given),
                2 => absolute.clone(),
                3 => format!(".//{}", given),
                _ => given,
            };
            let said = format!("Input file {} is", given);
            if q.ok && !q.out.contains(&said) {
                return Err(format!("dinero {:?} does not name {:?}: {:?}", args, given, q.out));
            }
            q.out = q.out.replace(&said, "Input file is");
        }
        outs.push((args, q));
    }
    cx.label(if outs[0].1.ok { "accepted" } else { "rejected" });
    for k in 1..outs.len() {
        if outs[k].1.ok != outs[0].1.ok {
            return Err(format!("dinero {:?} and {:?} do not both succeed or fail", outs[0].0, outs[k].0));
        }
        if outs[k].1.out != outs[0].1.out {
            return Err(format!("dinero {:?} and {:?} do not print the same", outs[0].0, outs[k].0));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C31

/// Without the sequences for colours
fn plain_text(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in &mut it {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            r.push(c);
        }
    }
    r
}
fn c31(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.virt = 25;
    g.max_txns = 6;
    let r = rich(cx, &g, &Mix { autos: 10, asserts: 20, prices: 4, dirs: 20 });
    let m = match model(cx, &r.j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    write_all(cx, &st, MAIN, &r.j);
    let v = vocab(&m);
    let t = unique_target(cx, &m);
    let reports = all_reports(cx, &v, t.as_deref());
    for _ in 0..2 {
        let (cmd, args) = cx.pick(&reports).clone();
        let mut a = vec![cmd.clone(), "-f".to_string(), MAIN.to_string()];
        a.extend(args);
        let plain = cx.run_real(&a)?;
        accepted(&plain, &cmd)?;
        if plain.out.contains('\u{1b}') {
            return Err(format!("dinero {:?} prints colours without a terminal", a));
        }
        a.insert(1, "--force-color".to_string());
        let coloured = cx.run_real(&a)?;
        accepted(&coloured, &cmd)?;
        if coloured.out.contains('\u{1b}') {
            cx.nontrivial = true;
            cx.label(&format!("{} with colours", cmd));
        }
        if plain_text(&coloured.out) != plain.out {
            return Err(format!("dinero {:?} prints {:?} without its colours, and {:?} otherwise", a, plain_text(&coloured.out), plain.out));
        }
        if cmd == "balance" || cmd == "bal" {
            // the negative amounts are the coloured ones
            for (c, p) in coloured.out.lines().zip(plain.out.lines()) {
                let negative = p.trim_start().starts_with('-') && !p.starts_with("---");
                let at = p.len() - p.trim_start().len();
                let first: String = c.chars().filter(|c| *c != ' ').take(1).collect();
                let has = first == "\u{1b}";
                if p.split_whitespace().next().map_or(true, |x| x.ends_with("0.00") && x.trim_start_matches('-').len() == 4) {
                    // a little less than nothing may be red
                    continue;
                }
                if at < 20 && !p.starts_with("---") && has != negative {
                    return Err(format!("{:?} is written as {:?}", p, c));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C33

/// The line of a register for a terminal with so many columns; None if a column of it does not have enough room
fn widened(line: &str, cols: usize) -> Option<String> {
    let c: Vec<char> = line.chars().collect();
    if c.len() != 11 + 42 + 34 + 17 + 17 {
        return None;
    }
    let part = |a: usize, b: usize| c[a..b].iter().collect::<String>();
    let account = part(53, 87);
    let amount = part(87, 104);
    let sum = part(104, 121);
    Some(format!(
        "{}{:w$}{:>21}{:>21}",
        part(0, 53),
        account.trim_end(),
        amount.trim_start(),
        sum.trim_start(),
        w = cols - 95
    ))
}
fn c33(cx: &mut Cx) -> Res {
    let mut g = gen_g(cx);
    g.virt = 25;
    g.max_txns = 6;
    let r = rich(cx, &g, &Mix { autos: 10, asserts: 20, prices: 4, dirs: 20 });
    let m = match model(cx, &r.j) {
        Some(m) => m,
        None => return Ok(()),
    };
    let st = style(cx);
    write_all(cx, &st, MAIN, &r.j);
    let v = vocab(&m);
    let t = unique_target(cx, &m);
    let mut reports = all_reports(cx, &v, t.as_deref());
    reports.push(("check".to_string(), vec![]));
    let registers: Vec<_> = reports.iter().filter(|x| x.0 == "register" || x.0 == "reg").cloned().collect();
    reports.extend(registers.iter().cloned());
    reports.extend(registers.iter().cloned());
    for _ in 0..2 {
        let (cmd, args) = cx.pick(&reports).clone();
        let mut a = vec![cmd.clone(), "-f".to_string(), MAIN.to_string()];
        a.extend(args);
        let plain = cx.run_real(&a)?;
        accepted(&plain, &cmd)?;
        let cols = match cx.draw(4) {
            0 => *cx.pick(&[0, 80, 94, 95, 96, 97, 100, 120, 132, 256, 4096, 65535]),
            1 => 1 + cx.draw(95),
            _ => {
                let most = if cx.chance(80) { 100 } else { 900 };
                96 + cx.draw(most)
            }
        };
        let colours = cx.chance(50);
        let mut o = cx.run_tty(&a, cols as u16, colours)?;
        let shown = o.out.clone();
        o.out = plain_text(&shown);
        accepted(&o, &cmd)?;
        if colours && cmd != "check" {
            let mut b = a.clone();
            b.insert(1, "--force-color".to_string());
            let forced = cx.run_real(&b)?;
            if forced.out.contains('\u{1b}') != shown.contains('\u{1b}') {
                return Err(format!("dinero {:?} has colours on a terminal or with --force-color only", a));
            }
        } else if !colours && shown.contains('\u{1b}') {
            return Err(format!("dinero {:?} prints colours with NO_COLOR set", a));
        }
        let text = o.out;
        if !cmd.starts_with("reg") || cols <= 95 {
            if text != plain.out {
                return Err(format!("dinero {:?} prints {:?} on a terminal with {} columns, and {:?} elsewhere", a, text, cols, plain.out));
            }
            continue;
        }
        cx.nontrivial = !plain.out.is_empty();
        if text.lines().count() != plain.out.lines().count() {
            return Err(format!("dinero {:?} prints another number of lines on a terminal with {} columns", a, cols));
        }
        for (x, y) in text.lines().zip(plain.out.lines()) {
            let same = match widened(y, cols as usize) {
                Some(w) => w == x,
                None => {
                    let squeezed = |s: &str| s.chars().filter(|c| *c != ' ').collect::<String>();
                    squeezed(x) == squeezed(y) && x.chars().count() >= cols as usize
                }
            };
            if x.chars().count() == cols as usize {
                cx.label("lines which fit");
            }
            if !same {
                return Err(format!("on a terminal with {} columns {:?} becomes {:?}", cols, y, x));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C34

/// A journal, of which some are long, and its reports
struct ToReport {
    reports: Vec<(String, Vec<String>)>,
    /// the included files, and whether by name
    files: Vec<(String, bool)>,
    /// of prices
    dates: Vec<Date>,
}
fn included(path: &str, j: &[Entry], v: &mut Vec<(String, bool)>) {
    let dir = match path.rfind('/') {
        Some(k) => path[..k + 1].to_string(),
        None => String::new(),
    };
    for e in j {
        let (inner, named): (Vec<(&String, &Vec<Entry>)>, bool) = match e {
            Entry::Include(f, inner) => (vec![(f, inner)], true),
            Entry::Glob(_, files) => (files.iter().map(|x| (&x.0, &x.1)).collect(), false),
            _ => continue,
        };
        for (f, inner) in inner {
            let p = norm(&format!("{}{}", dir, f));
            v.push((p.clone(), named));
            included(&p, inner, v);
        }
    }
}
fn to_report(cx: &mut Cx, files: bool) -> Option<ToReport> {
    let mut g = gen_g(cx);
    g.virt = 25;
    let prices = if cx.chance(15) { cx.range(20, 60) as usize } else { 4 };
    if cx.chance(10) {
        g.max_txns = 40;
    }
    let mut r = rich(cx, &g, &Mix { autos: 10, asserts: 20, prices, dirs: 20 });
    if cx.chance(if files { 80 } else { 20 }) {
        r.j = over_files(cx, r.j, MAIN, 3);
    }
    let m = model(cx, &r.j)?;
    let st = style(cx);
    write_all(cx, &st, MAIN, &r.j);
    let v = vocab(&m);
    let t = unique_target(cx, &m);
    let mut reports = all_reports(cx, &v, t.as_deref());
    reports.push(("check".to_string(), vec![]));
    reports.push(("prices".to_string(), vec![]));
    let mut files = vec![];
    included(MAIN, &r.j, &mut files);
    let dates = m.prices.iter().map(|p| p.date).filter(|d| *d > Date::from_ymd(1970, 1, 5)).collect();
    Some(ToReport { reports, files, dates })
}
fn c34(cx: &mut Cx) -> Res {
    let reports = match to_report(cx, false) {
        Some(r) => r,
        None => return Ok(()),
    };
    for _ in 0..2 {
        let (cmd, args) = cx.pick(&reports.reports).clone();
        let mut a = vec![cmd.clone(), "-f".to_string(), MAIN.to_string()];
        a.extend(args);
        if cx.chance(20) {
            a.insert(1, "--force-color".to_string());
        }
        let good = cx.run_real(&a)?;
        accepted(&good, &cmd)?;
        if cx.chance(60) {
            // single writes
            let lines = good.out.lines().count() as u64;
            let mut write: String = (0..cx.draw(lines + 2)).map(|_| if cx.chance(30) { *cx.pick(&['i', 's', 'h']) } else { '.' }).collect();
            if cx.chance(70) {
                write.push(*cx.pick(&['e', 'n', 'a', 'n', 'e', 'p', 'b', 'q', 'v', 'z']));
            }
            let (o, happened) = cx.run_faults(&a, &Faults { write, ..Faults::default() })?;
            let failed = happened.ends_with(|c| "enapbqvz".contains(c));
            cx.nontrivial |= !happened.is_empty();
            cx.label(if failed {
                "a write fails"
            } else if happened.is_empty() {
                "nothing happens"
            } else {
                "only interrupted and partial writes"
            });
            if failed {
                if o.ok {
                    return Err(format!("dinero {:?} succeeds although a write fails ({})", a, happened));
                }
                if !good.out.starts_with(&o.out) {
                    return Err(format!("dinero {:?} prints {:?} when a write fails, and {:?} otherwise", a, o.out, good.out));
                }
            } else if !o.ok || o.out != good.out {
                return Err(format!("dinero {:?} prints {:?} with interrupted and partial writes ({}), and {:?} otherwise", a, o.out, happened, good.out));
            }
            continue;
        }
        let all = good.out.as_bytes().len() as u64;
        let sink = match cx.draw(10) {
            0 | 4 => Sink::Full,
            1 => Sink::ClosedPipe,
            2 if all > 0 => Sink::Room(all - 1),
            3 => Sink::Room(all + cx.draw(2) * cx.draw(100)),
            _ => Sink::Room(cx.draw(all + 1)),
        };
        let (o, bytes) = cx.run_full(&a, sink);
        if let Some(s) = o.killed {
            if s != libc::SIGPIPE {
                return Err(format!("dinero {:?} with standard output {:?} was ended by signal {}", a, sink, s));
            }
        }
        let enough = match sink {
            Sink::Room(n) => n >= all,
            _ => all == 0,
        };
        cx.label(if enough { "enough room" } else { "not enough room" });
        if enough {
            if !o.ok {
                return Err(format!("dinero {:?} fails with standard output {:?}, and prints {} bytes", a, sink, all));
            }
            if let Sink::Room(_) = sink {
                if bytes != good.out.as_bytes() {
                    return Err(format!("dinero {:?} prints {:?} to a file, and {:?} to a pipe", a, o.out, good.out));
                }
            }
        } else {
            cx.nontrivial = true;
            if o.ok {
                return Err(format!("dinero {:?} has {} bytes to print, and succeeds with standard output {:?}", a, all, sink));
            }
            if !good.out.as_bytes().starts_with(&bytes) {
                return Err(format!("dinero {:?} prints {:?} before it fails, and {:?} otherwise", a, o.out, good.out));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C35

fn c35(cx: &mut Cx) -> Res {
    let reports = match to_report(cx, true) {
        Some(r) => r,
        None => return Ok(()),
    };
    let p = *cx.pick(&["~/.ledgerrc", ".ledgerrc", "other/rc"]);
    let config = cx.chance(20);
    if config {
        cx.file(p, "--force-color\n");
    }
    let named = config && p == "other/rc";
    if !reports.files.is_empty() && cx.chance(10) {
        // one of the files is not a text, or no file
        let (f, by_name) = cx.pick(&reports.files).clone();
        let full = cx.exec.work().join(&f);
        // a wildcard may pass over a directory
        let k = if by_name { cx.draw(4) } else { *cx.pick(&[0, 2, 3]) };
        let what = match k {
            0 => {
                let mut b = std::fs::read(&full).unwrap();
                let at = cx.below(b.len() + 1);
                b.insert(at, *cx.pick(&[0xffu8, 0xc3, 0x80, 0xf8]));
                if std::str::from_utf8(&b).is_ok() {
                    return Ok(());
                }
                cx.exec.write(&f, &b);
                "not UTF-8"
            }
            1 => {
                cx.exec.remove(&f);
                std::fs::create_dir(&full).unwrap();
                "a directory"
            }
            2 => {
                cx.exec.remove(&f);
                std::os::unix::fs::symlink("nowhere", &full).unwrap();
                "a link to nothing"
            }
            _ => {
                cx.exec.remove(&f);
                std::os::unix::fs::symlink(full.file_name().unwrap(), &full).unwrap();
                "a link to itself"
            }
        };
        cx.log.push_str(&format!("--- {} is {}\n", f, what));
        cx.label(what);
        cx.nontrivial = true;
        let (cmd, args) = cx.pick(&reports.reports).clone();
        let mut a = vec![cmd, "-f".to_string(), MAIN.to_string()];
        a.extend(args);
        let o = cx.run_real(&a);
        if k > 0 {
            // so that it can be removed
            let _ = std::fs::remove_dir(&full);
            let _ = std::fs::remove_file(&full);
        }
        let o = o?;
        if o.ok {
            return Err(format!("dinero {:?} succeeds although {} is {}", a, f, what));
        }
        if !o.out.is_empty() {
            return Err(format!("dinero {:?} prints {:?} although {} is {}", a, o.out, f, what));
        }
        return Ok(());
    }
    for _ in 0..2 {
        let (cmd, args) = cx.pick(&reports.reports).clone();
        let mut a = vec![cmd.clone(), "-f".to_string(), MAIN.to_string()];
        a.extend(args);
        if named {
            a.extend(vec!["--init-file".to_string(), p.to_string()]);
        }
        let good = cx.run_real(&a)?;
        accepted(&Out { out: plain_text(&good.out), err: good.err.clone(), ok: good.ok, killed: None }, &cmd)?;
        let mut f = Faults::default();
        let ops = |cx: &mut Cx, n: u64, mild: &[char], bad: &[char]| {
            let mut s: String = (0..cx.draw(n)).map(|_| if cx.chance(30) { *cx.pick(mild) } else { '.' }).collect();
            if cx.chance(70) {
                s.push(*cx.pick(bad));
            }
            s
        };
        let k = cx.draw(3);
        if k == 0 {
            f.dir = ops(cx, 2, &['.'], &['e', 'd', 'm', 'd', 'f', 'l', 'k', 't']);
        } else if k == 1 {
            f.open = ops(cx, 4, &['i'], &['e', 'd', 'm', 'd', 'f', 'o', 'l', 'k', 't', 'v']);
        } else {
            f.read = ops(cx, 8, &['i', 's', 'h'], &['e', 'e', 'a', 'v', 'k', 't', 'd']);
        }
        let (o, happened) = cx.run_faults(&a, &f)?;
        let failed = happened.ends_with(|c| "edmfolktva".contains(c));
        cx.nontrivial |= !happened.is_empty();
        cx.label(if failed {
            "a file cannot be read"
        } else if happened.is_empty() {
            "nothing happens"
        } else {
            "only interrupted and partial reads"
        });
        if failed {
            if o.ok {
                return Err(format!("dinero {:?} succeeds although a file cannot be read ({})", a, happened));
            }
            if !o.out.is_empty() {
                return Err(format!("dinero {:?} prints {:?} although a file cannot be read", a, o.out));
            }
        } else if !o.ok || o.out != good.out {
            return Err(format!("dinero {:?} prints {:?} with interrupted and partial reads ({}), and {:?} otherwise", a, o.out, happened, good.out));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C36

const VARS: &[(&str, &[&str])] = &[
    ("LANG", &["tr_TR.UTF-8", "C", "de_DE.UTF-8", "ja_JP.EUC-JP"]),
    ("LC_ALL", &["C", "tr_TR.UTF-8", "POSIX", "nonsense", "de_DE@euro"]),
    ("LC_NUMERIC", &["de_DE.UTF-8", "fr_FR"]),
    ("LC_TIME", &["en_US", "ja_JP"]),
    ("LC_COLLATE", &["C", "sv_SE.UTF-8"]),
    ("LC_CTYPE", &["C", "tr_TR"]),
    ("LANGUAGE", &["es:fr"]),
    ("TZ", &["Pacific/Kiritimati", "UTC+12", "UTC-14", "nonsense", ""]),
    ("COLUMNS", &["10", "132", "200", "0", "x"]),
    ("LINES", &["1", "24"]),
    ("TERM", &["dumb", "xterm-256color", ""]),
    ("COLORTERM", &["truecolor"]),
    ("CLICOLOR", &["0", "1"]),
    ("USER", &["nobody", ""]),
    ("LOGNAME", &["nobody"]),
    ("SHELL", &["/bin/false"]),
    ("LEDGER_FILE", &["other.ledger", "/nonexistent"]),
    ("LEDGER", &["other.ledger"]),
    ("LEDGER_INIT", &["/nonexistent"]),
    ("LEDGER_INIT_FILE", &["/nonexistent"]),
    ("LEDGER_PRICE_DB", &["/nonexistent"]),
    ("LEDGER_REAL", &["1"]),
    ("DINERO_FILE", &["other.ledger"]),
    ("DINERO_OPTS", &["--real"]),
    ("DINERO_INIT_FILE", &["/nonexistent"]),
    ("DATE_FORMAT", &["%d/%m/%Y"]),
    ("XDG_CONFIG_HOME", &["/nonexistent"]),
    ("XDG_DATA_HOME", &["/nonexistent"]),
    ("HOME", &["/nonexistent", "/"]),
    ("TMPDIR", &["/nonexistent"]),
    ("PWD", &["/", "/nonexistent"]),
    ("RUST_BACKTRACE", &["1", "full"]),
    ("RUST_LOG", &["debug", "trace"]),
    ("DEBUG", &["1"]),
    ("VERBOSE", &["1"]),
    ("CI", &["true"]),
    ("PAGER", &["cat"]),
    ("POSIXLY_CORRECT", &["1"]),
    ("EMACS", &["t"]),
    ("PATH", &["/nonexistent"]),
];
fn c36(cx: &mut Cx) -> Res {
    let spread = cx.chance(50);
    let reports = match to_report(cx, spread) {
        Some(r) => r,
        None => return Ok(()),
    };
    let junk = "2020-01-01 Not this one\n    A    1000 EUR\n    B\n";
    if cx.chance(30) {
        cx.file("other.ledger", junk);
    }
    let full = cx.exec.work().join(MAIN);
    let content = std::fs::read(&full).unwrap();
    let mut all = reports.reports.clone();
    let conv: Vec<_> = all.iter().filter(|r| r.1.contains(&"-X".to_string())).cloned().collect();
    all.extend(conv);
    let (cmd, args) = cx.pick(&all).clone();
    let with = |file: &str| {
        let mut a = vec![cmd.clone(), "-f".to_string(), file.to_string()];
        a.extend(args.iter().cloned());
        a
    };
    // the prices depend on the day
    let fixed = args.contains(&"-X".to_string());
    let day = if !reports.dates.is_empty() && cx.chance(90) {
        *cx.pick(&reports.dates) + chrono::Duration::days(cx.range(-1, 1))
    } else {
        today()
    };
    let day = day.and_hms(0, 0, 0).timestamp();
    let at = |cx: &mut Cx| match cx.draw(3) {
        0 => day + *cx.pick(&[0i64, 1, 43200, 86399]),
        _ if fixed => day + cx.range(0, 86399),
        1 => cx.range(0, 4102444800),
        _ => day + cx.range(-400, 400) * 86400,
    };
    let time = at(cx);
    let time = if fixed || cx.chance(20) { Some(time) } else { None };
    let base = World { time, ..World::default() };
    let first = cx.run_worlds(&[(with(MAIN), base)])?.remove(0);
    accepted(&first, &cmd)?;
    let mut runs = vec![];
    for _ in 0..1 + cx.below(4) {
        let mut w = World::default();
        let mut file = MAIN.to_string();
        if fixed || cx.chance(30) {
            w.time = Some(at(cx));
            cx.label("another time");
        }
        if cx.chance(50) {
            for _ in 0..cx.len(1, 8, 70) {
                let (k, values) = cx.pick(VARS);
                let v = cx.pick(values).to_string();
                if !w.vars.iter().any(|x| x.0 == *k) {
                    w.vars.push((k.to_string(), v));
                }
            }
            cx.label("other variables");
        }
        if cx.chance(20) {
            w.umask = Some(*cx.pick(&[0, 0o777, 0o022]));
        }
        if cx.chance(20) {
            w.name = Some(cx.pick(&["ledger", "", "/bin/sh", "-f", "x y"]).to_string());
            cx.label("another name");
        }
        if cmd != "check" && cx.chance(30) {
            // the path is written in another way
            let work = cx.exec.work().to_str().unwrap().to_string();
            let name = cx.exec.work().file_name().unwrap().to_str().unwrap().to_string();
            let (d, f) = match cx.draw(4) {
                0 => ("/".to_string(), format!("{}/{}", work, MAIN)),
                1 => ("..".to_string(), format!("{}/{}", name, MAIN)),
                2 => ("../home".to_string(), format!("../{}/{}", name, MAIN)),
                _ => ("../home".to_string(), format!("{}/{}", work, MAIN)),
            };
            w.dir = Some(d);
            file = f;
            cx.label("from another directory");
        } else if cmd != "check" && reports.files.is_empty() && content.len() < 60_000 && cx.chance(30) {
            w.stdin = Stdin::Pipe(content.clone());
            file = "/dev/stdin".to_string();
            cx.label("through a pipe");
        }
        if let Stdin::Nothing = w.stdin {
            match cx.draw(5) {
                0 => w.stdin = Stdin::Closed,
                1 => w.stdin = Stdin::Pipe(junk.as_bytes().to_vec()),
                _ => {}
            }
        }
        runs.push((with(&file), w));
    }
    // the file itself
    let kind = *cx.pick(&["plain", "plain", "plain", "a link", "a link of a link", "another name of a file", "read only", "old", "of the future"]);
    match kind {
        "a link" | "a link of a link" => {
            // includes are relative to the link
            let mut to = cx.pick(&["real.journal", "elsewhere/real.journal", "../home/real.journal"]).to_string();
            cx.exec.write(&to, &content);
            cx.exec.remove(MAIN);
            if kind != "a link" {
                cx.exec.symlink(&to, "linked.journal");
                to = format!("{}/linked.journal", cx.exec.work().to_str().unwrap());
            }
            std::os::unix::fs::symlink(&to, &full).unwrap();
        }
        "another name of a file" => {
            cx.exec.write("real.journal", &content);
            cx.exec.remove(MAIN);
            std::fs::hard_link(cx.exec.work().join("real.journal"), &full).unwrap();
        }
        "read only" => {
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(&full, std::fs::Permissions::from_mode(0o444)).unwrap();
        }
        "old" | "of the future" => {
            let t = libc::timespec { tv_sec: if kind == "old" { 0 } else { 4102444800 }, tv_nsec: 0 };
            let p = std::ffi::CString::new(full.to_str().unwrap()).unwrap();
            unsafe {
                libc::utimensat(libc::AT_FDCWD, p.as_ptr(), [t, t].as_ptr(), 0);
            }
        }
        _ => {}
    }
    cx.log.push_str(&format!("--- then the file is {}\n", kind));
    cx.label(&format!("the file is {}", kind));
    cx.nontrivial = !first.out.is_empty();
    if runs.len() > 1 {
        cx.label("at the same time");
    }
    let outs = cx.run_worlds(&runs)?;
    for (o, (a, w)) in outs.iter().zip(&runs) {
        if !o.ok || o.out != first.out {
            return Err(format!(
                "dinero {:?} with {:?}, the file being {}, {} {:?}, and otherwise prints {:?}",
                a,
                w,
                kind,
                if o.ok { "prints" } else { "fails and prints" },
                o.out,
                first.out
            ));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C29", quick: 20_000, thorough: 1_000_000, run: c29,
            rule: "random journals with directives, prices and automated transactions, distributed over files in 60%, with one posting line, entry or line of a directive that cannot be read, or one transaction that does not balance or whose assertion is wrong; the message on standard error has to name the file and line and show it, or show the date, description, accounts or amounts of the transaction; non-trivial when the line is not the first, or there are other transactions",
            assumptions: &["headers of transactions and price lines that cannot be read are not part of the property"] },
        Prop { id: "C30", quick: 15_000, thorough: 800_000, run: c30,
            rule: "random journals and command lines with up to nine options and a query, each written in three ways: the command by its alias, options in their short, long, joined and = forms, in any order, before and after the query; the three outputs and statuses are compared; non-trivial with more than two options",
            assumptions: &["the terms of a query stay together and in order"] },
        Prop { id: "C31", quick: 3_000, thorough: 150_000, run: c31,
            rule: "random journals, two random reports each with the real binary, with and without --force-color; the outputs have to be the same after removal of the escape sequences, and in a balance the negative amounts are the coloured ones; non-trivial when there are colours",
            assumptions: &["standard output is not a terminal"] },
        Prop { id: "C33", quick: 6_000, thorough: 150_000, run: c33,
            rule: "random journals, two random reports each (half of them registers) with the real binary, once to a pipe and once to a terminal of 0 (unknown) to 65,535 columns, with NO_COLOR or with colours; non-trivial when it is a register that prints something on more than 95 columns",
            assumptions: &[] },
        Prop { id: "C34", quick: 10_000, thorough: 150_000, run: c34,
            rule: "random journals, two random reports each with the real binary, whose standard output is a device that is full, a pipe nobody reads, or a file which takes a random number of bytes, up to a few more than the report has; or whose writes fail, end early or are interrupted one by one as a random schedule says; non-trivial when the report does not fit or something happened to a write",
            assumptions: &["SIGXFSZ is ignored, so that a write beyond the limit fails"] },
        Prop { id: "C35", quick: 10_000, thorough: 150_000, run: c35,
            rule: "random journals over up to three levels of files, some of them included by wildcards, 20% with a configuration file, two random reports each with the real binary, while opening and reading files and listing directories fails, ends early or is interrupted as a random schedule says; or one included file is a directory, a link to nothing or to itself, or has a byte that is not UTF-8; non-trivial when something happened",
            assumptions: &["faults are injected into the calls open, openat and read of the C library"] },
        Prop { id: "C36", quick: 4_000, thorough: 120_000, run: c36,
            rule: "random journals in one or several files, one random report each with the real binary, then again up to four times at once with random environment variables, times of day (and dates, unless -X is used), standard inputs, starting directories, program names and umasks, with the journal in a plain file, behind links, read only, with another modification time or through a pipe; non-trivial when the report is not empty",
            assumptions: &["the current time is replaced in the C library's clock_gettime, gettimeofday and time"] },
    ]
}
