//! Writes journals down, in the plain way or with all the freedom the format gives.
use crate::engine::Cx;
use crate::expr::*;
use crate::model::*;
use chrono::Datelike;
use num::Signed;
use std::collections::BTreeMap;

#[derive(Clone, Default)]
pub struct Style {
    /// How often something is not written in the plain way, in percent
    pub fancy: u64,
    pub crlf: bool,
    pub no_final_newline: bool,
    /// Other ways to write a name
    pub accts: BTreeMap<String, Vec<String>>,
    pub comms: BTreeMap<String, Vec<String>>,
    /// No comments after amounts and no times, for entries whose text is part of the check
    pub alias_pct: u64,
}
impl Style {
    pub fn plain() -> Style {
        Style::default()
    }
    pub fn fancy(pct: u64) -> Style {
        Style { fancy: pct, ..Style::default() }
    }
}

pub fn acct_name(cx: &mut Cx, st: &Style, name: &str) -> String {
    match st.accts.get(name) {
        Some(v) if cx.chance(st.alias_pct) => cx.pick(v).clone(),
        _ => name.to_string(),
    }
}
pub fn comm_name(cx: &mut Cx, st: &Style, name: &str) -> String {
    match st.comms.get(name) {
        Some(v) if cx.chance(st.alias_pct) => cx.pick(v).clone(),
        _ => name.to_string(),
    }
}
fn spaces(cx: &mut Cx, st: &Style, lo: usize, plain: usize, tabs: bool) -> String {
    if !cx.chance(st.fancy) {
        return " ".repeat(plain);
    }
    if tabs && cx.chance(25) {
        let mut s = "\t".repeat(1 + cx.below(2));
        if cx.chance(30) {
            s.push(' ');
        }
        return s;
    }
    " ".repeat(lo + cx.below(5))
}
pub fn date(cx: &mut Cx, st: &Style, d: Date) -> String {
    let sep = if cx.chance(st.fancy) { *cx.pick(&["/", ".", "-"]) } else { "-" };
    let m = if cx.chance(st.fancy) { format!("{}", d.month()) } else { format!("{:02}", d.month()) };
    let day = if cx.chance(st.fancy) { format!("{}", d.day()) } else { format!("{:02}", d.day()) };
    let y = if d.year() < 1000 && cx.chance(st.fancy) { format!("{}", d.year()) } else { format!("{:04}", d.year()) };
    format!("{}{}{}{}{}", y, sep, m, sep, day)
}
fn time(cx: &mut Cx) -> String {
    let mut s = format!("{:02}:{:02}:{:02}", cx.below(24), cx.below(60), cx.below(60));
    if cx.chance(20) {
        s.push_str(&format!(".{}", cx.below(1000)));
    }
    s
}
pub fn quoted(cx: &mut Cx, st: &Style, name: &str) -> String {
    if name.is_empty() {
        return String::new();
    }
    if needs_quotes(name) || cx.chance(st.fancy / 3) {
        format!("\"{}\"", name)
    } else {
        name.to_string()
    }
}
pub fn amount(cx: &mut Cx, st: &Style, a: &Amt) -> String {
    let n = if cx.chance(st.fancy) { write_num(cx, &a.q) } else { decimal(&a.q, 0) };
    let name = comm_name(cx, st, &a.c);
    let c = quoted(cx, st, &name);
    if c.is_empty() {
        return n;
    }
    let sep = if cx.chance(st.fancy) { *cx.pick(&["", " ", "  ", "\t"]) } else { " " };
    if cx.chance(st.fancy) {
        format!("{}{}{}", c, sep, n)
    } else {
        format!("{}{}{}", n, sep, c)
    }
}
pub fn comment(cx: &mut Cx, st: &Style, c: &Comment) -> String {
    let sp = if cx.chance(st.fancy) { " ".repeat(cx.below(4)) } else { " ".to_string() };
    let end = if cx.chance(st.fancy) { cx.pick(&["", " ", "  ", "\t"]).to_string() } else { String::new() };
    let text = match c {
        Comment::Kv(k, v) if cx.chance(st.fancy) => format!("{}:{}{}", k, " ".repeat(cx.below(4)), v),
        c => c.text(),
    };
    format!(";{}{}{}", sp, text, end)
}
pub fn posting(cx: &mut Cx, st: &Style, p: &Post) -> Vec<String> {
    let mut lines = vec![];
    let indent = if cx.chance(st.fancy) { cx.pick(&["\t", "  ", "        ", " ", "\t\t", " \t"]).to_string() } else { "    ".to_string() };
    let name = acct_name(cx, st, &p.acct);
    let mut s = match p.kind {
        Kind::Real => format!("{}{}", indent, name),
        Kind::Virt => format!("{}({})", indent, name),
        Kind::Brack => format!("{}[{}]", indent, name),
    };
    let mut first = true;
    if let Some(a) = &p.amt {
        s.push_str(&spaces(cx, st, 2, 4, true));
        s.push_str(&amount(cx, st, a));
        first = false;
    }
    if let Some(c) = &p.cost {
        let (t, a) = match c {
            Cost::Unit(a) => ("@", a),
            Cost::Total(a) => ("@@", a),
        };
        s.push_str(&spaces(cx, st, 0, 1, true));
        s.push_str(t);
        s.push_str(&spaces(cx, st, 0, 1, true));
        s.push_str(&amount(cx, st, a));
    }
    if let Some(b) = &p.bal {
        s.push_str(&if first { spaces(cx, st, 2, 4, true) } else { spaces(cx, st, 0, 1, true) });
        s.push('=');
        s.push_str(&spaces(cx, st, 0, 1, true));
        s.push_str(&amount(cx, st, b));
    }
    let mut rest = &p.comments[..];
    if !rest.is_empty() && cx.chance(60) {
        s.push_str("  ");
        s.push_str(&comment(cx, st, &rest[0]));
        rest = &rest[1..];
    } else if cx.chance(st.fancy / 2) {
        s.push_str(*cx.pick(&[" ", "  ", "\t", "   "]));
    }
    lines.push(s);
    for c in rest {
        let c = comment(cx, st, c);
        lines.push(format!("{}{}", if cx.chance(st.fancy) { "\t" } else { "    " }, c));
    }
    lines
}
pub fn txn(cx: &mut Cx, st: &Style, t: &Txn) -> Vec<String> {
    let mut s = date(cx, st, t.date);
    if cx.chance(st.fancy / 3) {
        s.push(if cx.chance(20) { '\t' } else { ' ' });
        s.push_str(&time(cx));
    }
    if cx.chance(st.fancy / 3) {
        s.push('=');
        let d = t.date + chrono::Duration::days(cx.range(-40, 400));
        s.push_str(&date(cx, st, d));
        cx.effective.insert(t.id, d);
        if cx.chance(20) {
            s.push(' ');
            s.push_str(&time(cx));
        }
    }
    s.push_str(&spaces(cx, st, 1, 1, true));
    if cx.chance(st.fancy) {
        s.push_str(*cx.pick(&["*", "!"]));
        s.push_str(&spaces(cx, st, 0, 1, true));
    }
    s.push_str(&t.desc);
    if let Some(p) = &t.payee {
        s.push_str(&spaces(cx, st, 0, 1, true));
        s.push('|');
        s.push_str(&spaces(cx, st, 0, 1, true));
        s.push_str(p);
    }
    if let Some(c) = &t.header_comment {
        s.push_str(&spaces(cx, st, 0, 2, true));
        s.push_str(&comment(cx, st, c));
    } else if cx.chance(st.fancy / 2) {
        s.push_str("  ");
    }
    let mut lines = vec![s];
    for c in &t.comments {
        let c = comment(cx, st, c);
        lines.push(format!("    {}", c));
    }
    for p in &t.posts {
        lines.extend(posting(cx, st, p));
    }
    lines
}
pub fn auto(cx: &mut Cx, st: &Style, a: &Auto) -> Vec<String> {
    let st2 = st.clone();
    let ws = cx.ws;
    cx.ws = 0;
    let q = a.query.text(cx, &mut |cx: &mut Cx, c: &str| comm_name(cx, &st2, c));
    let mut lines = vec![format!("={}{}", if cx.chance(80) { " " } else { "" }, q)];
    for c in &a.comments {
        let c = comment(cx, st, c);
        lines.push(format!("    {}", c));
    }
    for p in &a.posts {
        let name = acct_name(cx, st, &p.acct);
        let name = match p.kind {
            Kind::Real => name,
            Kind::Virt => format!("({})", name),
            Kind::Brack => format!("[{}]", name),
        };
        let amt = match &p.amt {
            AutoAmt::Fixed(a) => amount(cx, st, a),
            AutoAmt::Factor(f) => decimal(f, 0),
            AutoAmt::Expr(e) => {
                cx.ws = if cx.chance(st.fancy / 2) { 2 } else { 0 };
                let s = write_expr(cx, e, 0, true, &mut |cx: &mut Cx, c: &str| comm_name(cx, &st2, c));
                cx.ws = 0;
                format!("({})", s)
            }
        };
        let indent = if cx.chance(st.fancy) { *cx.pick(&["\t", "  ", "        ", " ", " \t"]) } else { "    " };
        let mut line = format!("{}{}{}{}", indent, name, spaces(cx, st, 2, 4, true), amt);
        if cx.chance(st.fancy / 3) {
            line.push_str(*cx.pick(&["  ; just a comment", "  ", "\t", " ; x"]));
        }
        lines.extend(line.split('\n').map(|x| x.to_string()));
    }
    cx.ws = ws;
    lines
}
pub fn price(cx: &mut Cx, st: &Style, p: &PriceLine) -> String {
    let mut s = format!("P {}", date(cx, st, p.date));
    if cx.chance(st.fancy / 2) {
        s.push(' ');
        s.push_str(&time(cx));
    }
    s.push_str(&spaces(cx, st, 1, 1, true));
    let c = comm_name(cx, st, &p.c);
    s.push_str(&quoted(cx, st, &c));
    s.push_str(&spaces(cx, st, 1, 1, true));
    s.push_str(&if !p.price.q.is_negative() && cx.chance(st.fancy) { write_num(cx, &p.price.q) } else { decimal(&p.price.q, 0) });
    s.push_str(&spaces(cx, st, 1, 1, true));
    let c = comm_name(cx, st, &p.price.c);
    s.push_str(&quoted(cx, st, &c));
    if cx.chance(st.fancy / 3) {
        s.push_str("  ; a price");
    }
    s
}
/// The lines below a directive
fn sub_lines(cx: &mut Cx, st: &Style, v: &mut Vec<String>, mut sub: Vec<String>) {
    cx.shuffle(&mut sub);
    for s in sub {
        let indent = if cx.chance(st.fancy) { *cx.pick(&["\t", "  ", " ", "     "]) } else { "    " };
        let s = match s.find(' ') {
            Some(k) if cx.chance(st.fancy / 2) => format!("{}{}{}", &s[..k], spaces(cx, st, 1, 1, true), s[k..].trim_start()),
            _ => s,
        };
        let end = if cx.chance(st.fancy / 4) { "  " } else { "" };
        v.push(format!("{}{}{}", indent, s, end));
    }
}
fn entry(cx: &mut Cx, st: &Style, e: &Entry) -> Vec<String> {
    match e {
        Entry::Txn(t) => txn(cx, st, t),
        Entry::Auto(a) => auto(cx, st, a),
        Entry::Price(p) => vec![price(cx, st, p)],
        Entry::Account(d) => {
            let mut v = vec![format!("account {}{}", spaces(cx, st, 0, 0, false), d.name)];
            let mut sub = vec![];
            for a in &d.aliases {
                sub.push(format!("alias {}", a));
            }
            for p in &d.payees {
                sub.push(format!("payee {}", p));
            }
            if let Some(n) = &d.note {
                sub.push(format!("note {}", n));
            }
            if cx.chance(st.fancy / 3) {
                let line =
                    cx.pick(&["isin ES123", "check commodity == \"$\"", "assert commodity == \"$\"", "default", "; alias nothing", ";"])
                        .to_string();
                if line == "default" {
                    cx.defaults.push(d.name.clone());
                }
                sub.push(line);
            }
            sub_lines(cx, st, &mut v, sub);
            v
        }
        Entry::Commodity(d) => {
            let mut v = vec![format!("commodity {}{}", spaces(cx, st, 0, 0, false), quoted(cx, st, &d.name))];
            if cx.chance(st.fancy / 4) {
                v[0].push_str(*cx.pick(&[" ; a coin", "  ; x", "  "]));
            }
            let mut sub = vec![];
            for a in &d.aliases {
                sub.push(format!("alias {}", a));
            }
            if let Some(n) = &d.note {
                sub.push(format!("note {}", n));
            }
            if cx.chance(st.fancy / 3) {
                sub.push(cx.pick(&["format 1000.00", "default", "; alias nothing"]).to_string());
            }
            sub_lines(cx, st, &mut v, sub);
            v
        }
        Entry::Payee(d) => {
            let mut s = format!("payee {}", d.name);
            if let Some(n) = &d.note {
                s.push_str(&format!("  ; {}", n));
            }
            let mut v = vec![s];
            let mut sub = vec![];
            for a in &d.aliases {
                sub.push(format!("alias {}", a));
            }
            if cx.chance(st.fancy / 3) {
                sub.push("; alias .*".to_string());
            }
            sub_lines(cx, st, &mut v, sub);
            v
        }
        Entry::Tag(t) => {
            let mut v = vec![format!("tag {}", t)];
            let mut sub = vec![];
            if cx.chance(st.fancy) {
                for _ in 0..cx.len(1, 4, 80) {
                    let line = cx.pick(&["check value =~ /x/", "assert value != 3", "check value", "assert value == date", "; a comment"]).to_string();
                    cx.below_tags.push(line.clone());
                    sub.push(line);
                }
            }
            sub_lines(cx, st, &mut v, sub);
            v
        }
        Entry::Comment(c) => {
            cx.between.push(c.clone());
            vec![c.clone()]
        }
        Entry::Include(f, _) | Entry::Glob(f, _) => vec![format!("include {}{}", spaces(cx, st, 0, 0, false), f)],
    }
}
/// The text of one file
pub fn render(cx: &mut Cx, st: &Style, j: &[Entry]) -> String {
    let mut lines: Vec<String> = vec![];
    for (k, e) in j.iter().enumerate() {
        if cx.chance(st.fancy) {
            for _ in 0..cx.len(1, 3, 40) {
                let line = match cx.draw(6) {
                    0 => "; a comment".to_string(),
                    1 => "# another comment, with 10 USD".to_string(),
                    2 => "* 2020-01-01 x".to_string(),
                    3 => "   ".to_string(),
                    4 => "% y".to_string(),
                    _ => String::new(),
                };
                if !line.trim().is_empty() {
                    cx.between.push(line.clone());
                }
                lines.push(line);
            }
        } else if k > 0 && !cx.chance(10) {
            lines.push(String::new());
        }
        lines.extend(entry(cx, st, e));
    }
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let mut s = lines.join(nl);
    if !st.no_final_newline {
        s.push_str(nl);
    }
    s
}
pub fn wrap_txns(t: &[Txn]) -> Vec<Entry> {
    t.iter().cloned().map(Entry::Txn).collect()
}
