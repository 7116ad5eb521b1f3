From a94598b39452ff038f00714b5fb96876a1c052bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:45 +0000
Subject: [PATCH 01/50] fix: print the sign of amounts between -1 and 0 and
 round amounts correctly

The integer part carried the sign, so -0.50 was printed as 0.50; rounding up
0.998 gave -1.00, and digits beyond the fourth decimal were dropped before
rounding.
---
 src/models/money.rs | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index 70a8bca..a9c3a6f 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -12,7 +12,6 @@ use crate::models::{Currency, HasName};
 use num::traits::Inv;
 use std::borrow::Borrow;
 use std::cmp::Ordering;
-use std::str::FromStr;
 
 /// Money representation: an amount and a currency
 ///
@@ -100,37 +99,21 @@ impl Display for Money {
         match self {
             Money::Zero => write!(f, "{}", "0"),
             Money::Money { amount, currency } => {
-                // num = trunc + fract
+                // Round to the precision of the currency, halves away from zero
                 let decimals: usize = currency.get_precision();
-                let base: i32 = 10;
-                let mut integer_part = amount.trunc();
-                let decimal_part = (amount.fract() * BigInt::from(base.pow(decimals as u32 + 2)))
-                    .abs()
-                    .trunc();
-                let mut decimal_str =
-                    format!("{:0width$}", decimal_part.numer(), width = decimals + 2);
-                decimal_str.truncate(decimals + 1);
-
-                let mut decimal = if u64::from_str(&decimal_str).unwrap() % 10 >= 5 {
-                    u64::from_str(&decimal_str).unwrap() / 10 + 1
-                } else {
-                    u64::from_str(&decimal_str).unwrap() / 10
-                };
-                let len = format!("{}", decimal).len();
-                if len == decimals + 1 {
-                    decimal = 0;
-                    if integer_part.is_positive() {
-                        integer_part += BigInt::from(1);
-                    } else {
-                        integer_part -= BigInt::from(1);
-                    }
-                }
-                decimal_str = format!("{:0width$}", decimal, width = decimals);
+                let scale = num::pow(BigInt::from(10), decimals);
+                let scaled = (amount * &scale).round().to_integer();
+                let sign = if scaled.is_negative() { "-" } else { "" };
+                let digits = format!("{:0>width$}", scaled.abs().to_string(), width = decimals + 1);
+                let (integer_part, decimal_part) = digits.split_at(digits.len() - decimals);
+                let separator = if decimals > 0 { "." } else { "" };
                 write!(
                     f,
-                    "{}.{} {}",
-                    integer_part.numer(),
-                    decimal_str,
+                    "{}{}{}{} {}",
+                    sign,
+                    integer_part,
+                    separator,
+                    decimal_part,
                     currency.get_name()
                 )
             }
-- 
2.43.0


From a586aefaa750352c903ee5f612d99c5b812f69e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:21 +0000
Subject: [PATCH 02/50] fix: end the account name of a posting at the end of
 its line

A posting without amount followed by one space or CRLF swallowed the next
line, one at the end of a file without final newline panicked, and so did an
account name starting with a non-ASCII letter.
---
 src/parser/tokenizers/transaction.rs | 35 +++++++---------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1d508b2..cfabc20 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -196,33 +196,19 @@ fn parse_posting(
 ) -> Result<RawPosting, ParserError> {
     let mut account = String::new();
     let mut posting_type = PostingType::Real;
-    let mut finished = false;
-    // Get the account name
-    loop {
-        let c = tokenizer.next();
-        if !c.is_whitespace() {
-            account.push(c);
-        } else if (c == '\t') | (c == '\n') {
-            if c == '\n' {
-                // println!("1 {}-", account);
-                tokenizer.line_index -= 1;
-                tokenizer.position -= 1;
-                finished = true;
-            }
-            break;
-        } else {
-            let d = tokenizer.next();
-            if d.is_whitespace() | (c == '\n') {
+    // Get the account name, which ends at the end of the line, at a tab or at two spaces
+    while let Some(c) = tokenizer.get_char() {
+        if c.is_whitespace() {
+            let next = tokenizer.content.get(tokenizer.position + 1);
+            if (c == '\t') | (c == '\n') | next.map_or(true, |d| d.is_whitespace()) {
                 break;
-            } else {
-                account.push(c);
-                account.push(d);
             }
         }
+        account.push(tokenizer.next());
     }
     // See if it is a virtual account
-    match &account[0..1] {
-        "(" => {
+    match account.chars().next() {
+        Some('(') => {
             posting_type = PostingType::Virtual;
             if account.pop().unwrap() != ')' {
                 return Err(ParserError::UnexpectedInput(Some(
@@ -230,7 +216,7 @@ fn parse_posting(
                 )));
             }
         }
-        "[" => {
+        Some('[') => {
             posting_type = PostingType::VirtualMustBalance;
             if account.pop().unwrap() != ']' {
                 return Err(ParserError::UnexpectedInput(Some(
@@ -264,9 +250,6 @@ fn parse_posting(
         kind: posting_type,
         payee: default_payee.clone(),
     };
-    if finished {
-        return Ok(posting);
-    }
     chars::consume_whitespaces(tokenizer);
     // Amounts
     loop {
-- 
2.43.0


From 93106659d7eecb7d947ee2117a450e1e2619e256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:32 +0000
Subject: [PATCH 03/50] fix: do not replace the amount of a posting by a second
 one

'1,234.56 EUR' was read as 234.56 EUR, '2 ACME@5 USD' as 5 USD and
'100 EUR=500 EUR' as 500 EUR, without any error. A commodity now ends at '@'
and '=', and a second amount, cost or balance is an error.
---
 src/parser/chars.rs                  |  8 +++++++-
 src/parser/tokenizers/transaction.rs | 23 +++++++++++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 2c44973..c674a4e 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -117,7 +117,13 @@ pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
                 tokenizer.line_position += 1;
                 break;
             }
-        } else if (c.is_whitespace() | c.is_numeric() | (*c == '.') | (*c == '-') | (*c == ';'))
+        } else if (c.is_whitespace()
+            | c.is_numeric()
+            | (*c == '.')
+            | (*c == '-')
+            | (*c == ';')
+            | (*c == '@')
+            | (*c == '='))
             & !quote
         {
             break;
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index cfabc20..72b8062 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -255,6 +255,11 @@ fn parse_posting(
     loop {
         match tokenizer.get_char() {
             Some('(') => {
+                if posting.money_amount.is_some() | posting.amount_expr.is_some() {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Found more than one amount".to_string(),
+                    )));
+                }
                 // This is a value expression
                 posting.amount_expr = Some(chars::get_value_expression(tokenizer));
             }
@@ -265,6 +270,11 @@ fn parse_posting(
                 return Ok(posting);
             }
             Some('=') => {
+                if posting.balance_amount.is_some() {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Found more than one balance".to_string(),
+                    )));
+                }
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
                 chars::consume_whitespaces(tokenizer);
@@ -284,6 +294,11 @@ fn parse_posting(
                         "Amount not found".to_string(),
                     )));
                 }
+                if posting.cost_amount.is_some() {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Found more than one cost".to_string(),
+                    )));
+                }
 
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
@@ -307,6 +322,14 @@ fn parse_posting(
             }
             _ => match parse_money(tokenizer) {
                 Ok(money) => {
+                    if posting.money_amount.is_some()
+                        | posting.amount_expr.is_some()
+                        | posting.balance_amount.is_some()
+                    {
+                        return Err(ParserError::UnexpectedInput(Some(
+                            "Found more than one amount".to_string(),
+                        )));
+                    }
                     posting.money_amount = Some(money.0);
                     posting.money_currency = Some(money.1);
                 }
-- 
2.43.0


From 687172f21639a71c2f27b8be8894c30a2f043469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:03 +0000
Subject: [PATCH 04/50] fix: use every operand of a chain in value expressions

Only the first two operands of or, and, +, -, *, / and comparisons were used,
so a third query term, for instance, was ignored.
---
 src/grammar/grammar.pest |  2 +-
 src/parser/value_expr.rs | 46 ++++++++++++++++++++--------------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 22d4594..60b9f28 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -48,7 +48,7 @@ or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ) * }
 and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ) * }
 comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ) * }
 additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ) * }
-multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
+multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
     (unary ~ ws* ~ expr) |
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index d95ab10..ad6d153 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -413,30 +413,30 @@ fn build_ast_from_expr(
             let mut pair = pair.into_inner();
             let lhspair = pair.next().unwrap();
             let lhs = build_ast_from_expr(lhspair, regexes);
-            match pair.next() {
-                None => lhs,
-                Some(x) => {
-                    let op = match rule {
-                        Rule::or_expr => Binary::Or,
-                        Rule::and_expr => Binary::And,
-                        _ => match x.as_str() {
-                            "+" => Binary::Add,
-                            "-" => Binary::Subtract,
-                            "*" => Binary::Mult,
-                            "/" => Binary::Div,
-                            "=~" | "==" => Binary::Eq,
-                            "<" => Binary::Lt,
-                            ">" => Binary::Gt,
-                            "<=" => Binary::Le,
-                            ">=" => Binary::Ge,
-                            x => unreachable!("{}", x),
-                        },
-                    };
-                    let rhspair = pair.next().unwrap();
-                    let rhs = build_ast_from_expr(rhspair, regexes);
-                    parse_binary_expr(op, lhs, rhs)
-                }
+            // Chains are left associative and can have any number of operands
+            let mut node = lhs;
+            while let Some(x) = pair.next() {
+                let op = match rule {
+                    Rule::or_expr => Binary::Or,
+                    Rule::and_expr => Binary::And,
+                    _ => match x.as_str() {
+                        "+" => Binary::Add,
+                        "-" => Binary::Subtract,
+                        "*" => Binary::Mult,
+                        "/" => Binary::Div,
+                        "=~" | "==" => Binary::Eq,
+                        "<" => Binary::Lt,
+                        ">" => Binary::Gt,
+                        "<=" => Binary::Le,
+                        ">=" => Binary::Ge,
+                        x => unreachable!("{}", x),
+                    },
+                };
+                let rhspair = pair.next().unwrap();
+                let rhs = build_ast_from_expr(rhspair, regexes);
+                node = parse_binary_expr(op, node, rhs);
             }
+            node
         }
         Rule::primary => {
             let mut inner = pair.into_inner();
-- 
2.43.0


From f707c5300af59740acb40eb1a441f4855d0aec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 05/50] fix: do not read 'and', 'or' or '!=' after a number as
 a commodity

'amount > 5 and date > ...' could not be parsed, because 5 and was taken as an
amount in a commodity named and.
---
 src/grammar/grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 60b9f28..1a1e75e 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -66,7 +66,8 @@ string = {
 	("'" ~ (("\\'") | (!"'" ~ ANY))* ~ "'")
     }
 reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |  ")" | ";"}
-unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~
+keyword = _{ ("and" | "or" | "not") ~ (reserved | SEPARATOR | EOI) }
+unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~ !"!" ~ !keyword ~
     (!reserved ~ !SEPARATOR ~ ANY)+ }
 variable = {
     "account" |
-- 
2.43.0


From 25caddfa7c90af1e300b4d3fc7c376bd762b217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:52 +0000
Subject: [PATCH 06/50] fix: unary minus and not apply to the operand that
 follows them

They took the whole rest of the expression, so that -5 + 3 was -8 and
'not a and b' meant not (a and b); ! was accepted by the grammar but panicked.
---
 src/grammar/grammar.pest |  8 +++++---
 src/parser/value_expr.rs | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 1a1e75e..53a66a7 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -45,13 +45,14 @@ value_expr = {"(" ~ ws* ~ expr ~ ws* ~ ")"}
 // Then the expression builds up in terms of increasing preference
 expr = { or_expr }
 or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ) * }
-and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ) * }
+and_expr = { not_expr ~ ws* ~ ( and ~ ws* ~ not_expr ) * }
+not_expr = { (not ~ ws* ~ not_expr) | comparison_expr }
 comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ) * }
 additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ) * }
 multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
-    (unary ~ ws* ~ expr) |
+    ((unary | not) ~ ws* ~ primary) |
     term |
     (function ~ ws* ~ "(" ~ ws* ~ expr ~ ws* ~ ("," ~ ws* ~ expr ~ ws*)* ~ ")")
     }
@@ -104,7 +105,8 @@ add = { "+" | "-" }
 mult = { "*" | "/" }
 and = {"&" | "and"}
 or = {"|" | "or" }
-unary = { "-" | "!" | "not" }
+unary = { "-" }
+not = { ("!" ~ !"=") | ("not" ~ !(ASCII_ALPHANUMERIC | "_")) }
 function = { "abs" | "has_tag" | "to_date" | "any" | "tag" }
 comparison = { eq | ne | ge | gt | le | lt }
 eq = { "=~" | "=="}
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index ad6d153..f3b987e 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -438,18 +438,29 @@ fn build_ast_from_expr(
             }
             node
         }
+        Rule::not_expr => {
+            let mut inner = pair.into_inner();
+            let first = inner.next().unwrap();
+            match first.as_rule() {
+                Rule::not => parse_unary_expr(
+                    Unary::Not,
+                    build_ast_from_expr(inner.next().unwrap(), regexes),
+                ),
+                _ => build_ast_from_expr(first, regexes),
+            }
+        }
         Rule::primary => {
             let mut inner = pair.into_inner();
             let first = inner.next().unwrap();
             match first.as_rule() {
-                Rule::function | Rule::unary => {
+                Rule::function | Rule::unary | Rule::not => {
                     let op = match first.as_str() {
                         "abs" => Unary::Abs,
                         "-" => Unary::Neg,
                         "has_tag" => Unary::HasTag,
                         "tag" => Unary::Tag,
                         "to_date" => Unary::ToDate,
-                        "not" => Unary::Not,
+                        "not" | "!" => Unary::Not,
                         "any" => Unary::Any,
                         unknown => panic!("Unknown expr: {:?}", unknown),
                     };
-- 
2.43.0


From d4a84a0fc295e91ea4b0ba44ace60c1829851c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:24 +0000
Subject: [PATCH 07/50] fix: evaluate != in value expressions

The grammar accepts it, but it reached an unreachable!().
---
 src/parser/value_expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index f3b987e..f000aeb 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -424,7 +424,7 @@ fn build_ast_from_expr(
                         "-" => Binary::Subtract,
                         "*" => Binary::Mult,
                         "/" => Binary::Div,
-                        "=~" | "==" => Binary::Eq,
+                        "=~" | "==" | "!=" => Binary::Eq,
                         "<" => Binary::Lt,
                         ">" => Binary::Gt,
                         "<=" => Binary::Le,
@@ -435,6 +435,9 @@ fn build_ast_from_expr(
                 let rhspair = pair.next().unwrap();
                 let rhs = build_ast_from_expr(rhspair, regexes);
                 node = parse_binary_expr(op, node, rhs);
+                if x.as_str() == "!=" {
+                    node = parse_unary_expr(Unary::Not, node);
+                }
             }
             node
         }
-- 
2.43.0


From 5d5b4e92167e48ff5fc73c7c5674bd9d7acabb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:35 +0000
Subject: [PATCH 08/50] fix: quotes are not part of a commodity's name in value
 expressions

---
 src/parser/value_expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index f000aeb..25cba5d 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -1,4 +1,4 @@
-use super::utils::parse_rational;
+use super::utils::{parse_rational, parse_string};
 use super::{GrammarParser, Rule};
 use crate::app;
 use crate::models::{Account, Currency, Money, Payee, Posting, Transaction};
@@ -474,11 +474,11 @@ fn build_ast_from_expr(
                     let child = money.next().unwrap();
                     match child.as_rule() {
                         Rule::number => Node::Money {
-                            currency: money.next().unwrap().as_str().to_string(),
+                            currency: parse_string(money.next().unwrap()),
                             amount: parse_rational(child),
                         },
                         Rule::currency => Node::Money {
-                            currency: child.as_str().to_string(),
+                            currency: parse_string(child),
                             amount: parse_rational(money.next().unwrap()),
                         },
                         unknown => panic!("Unknown rule: {:?}", unknown),
-- 
2.43.0


From a4fefec50953a5658c1b50947d37e71df5ca4e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:46 +0000
Subject: [PATCH 09/50] fix: accept times from 20:00:00 to 23:59:59

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 53a66a7..9e68625 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -32,7 +32,7 @@ month = {("1" ~ ("0" | "1" | "2")) | ("0"? ~ ASCII_NONZERO_DIGIT)}
 day = {("3" ~ ("0" | "1")) |
 	(("1" | "2") ~ ASCII_DIGIT ) |
     ("0"? ~ ASCII_NONZERO_DIGIT) }
-hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" ~"1" ~"2" ~"3"))}
+hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" | "1" | "2" | "3"))}
 minute = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT }
 second = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT ~ ("." ~ bigint)? }
 
-- 
2.43.0


From 504109f0082f76f3d62f277af7847a9e74ac80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:56 +0000
Subject: [PATCH 10/50] fix: a comment in a tag directive no longer loops
 forever

---
 src/parser/tokenizers/tag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index c0f54cb..52ef6b5 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -47,7 +47,9 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     }
     while let LineType::Indented = chars::consume_whitespaces_and_lines(tokenizer) {
         match tokenizer.get_char().unwrap() {
-            ';' => {} // Skip comments
+            ';' => {
+                chars::get_line(tokenizer);
+            } // Skip comments
             _ => match chars::get_string(tokenizer).as_str() {
                 "check" => {
                     check.push(chars::get_line(tokenizer).trim().to_string());
-- 
2.43.0


From d268c47be8bfdb7428d82d30c14c64b852a97a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 11/50] fix: report errors on the first line of a file

The line number underflowed, so the error was lost in a panic.
---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cadf9bb..382ade3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -220,7 +220,7 @@ impl<'a> Tokenizer<'a> {
         let string = self.content.iter().collect::<String>();
 
         for (i, line) in string.lines().enumerate() {
-            if i < self.line_index - 1 {
+            if i + 1 < self.line_index {
                 continue;
             };
             if i > self.line_index {
-- 
2.43.0


From 6c4f59407f321e5bb2d096456c6383d97dc800de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:36 +0000
Subject: [PATCH 12/50] fix: print the same output on every run

The order of commodities within a balance, the direction of implied prices, the
choice among several matching payees or accounts and the path taken in a
conversion depended on the random order of hash maps.
---
 src/list.rs           | 12 ++++++------
 src/models/balance.rs | 14 +++++++-------
 src/models/mod.rs     |  8 ++++----
 src/models/price.rs   |  8 ++++----
 4 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 7461a88..e26ba92 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -1,6 +1,6 @@
 use regex::Regex;
-use std::collections::hash_map::{Iter, Values};
-use std::collections::HashMap;
+use std::collections::btree_map::{Iter, Values};
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::hash::Hash;
 use std::rc::Rc;
@@ -19,15 +19,15 @@ use crate::LedgerError;
 /// - Retrieving elements with a regular expression
 #[derive(Debug, Clone)]
 pub struct List<T> {
-    aliases: HashMap<String, String>,
-    list: HashMap<String, Rc<T>>,
+    aliases: BTreeMap<String, String>,
+    list: BTreeMap<String, Rc<T>>,
     matches: HashMap<String, Option<String>>,
 }
 
 impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> List<T> {
     pub fn new() -> Self {
-        let aliases: HashMap<String, String> = HashMap::new();
-        let list: HashMap<String, Rc<T>> = HashMap::new();
+        let aliases: BTreeMap<String, String> = BTreeMap::new();
+        let list: BTreeMap<String, Rc<T>> = BTreeMap::new();
         let matches: HashMap<String, Option<String>> = HashMap::new();
         List {
             aliases,
diff --git a/src/models/balance.rs b/src/models/balance.rs
index 39a6785..1f0c1a0 100644
--- a/src/models/balance.rs
+++ b/src/models/balance.rs
@@ -1,7 +1,7 @@
 use crate::error::LedgerError;
 use crate::models::{Currency, Money};
-use std::collections::hash_map::Iter;
-use std::collections::HashMap;
+use std::collections::btree_map::Iter;
+use std::collections::BTreeMap;
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::ops::{Add, Neg, Sub};
@@ -9,13 +9,13 @@ use std::rc::Rc;
 
 #[derive(Debug, Clone)]
 pub struct Balance {
-    pub balance: HashMap<Option<Rc<Currency>>, Money>,
+    pub balance: BTreeMap<Option<Rc<Currency>>, Money>,
 }
 
 impl Balance {
     pub fn new() -> Balance {
         Balance {
-            balance: HashMap::new(),
+            balance: BTreeMap::new(),
         }
     }
 
@@ -81,7 +81,7 @@ impl<'a> Neg for Balance {
     type Output = Balance;
 
     fn neg(self) -> Self::Output {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         for (k, v) in self.balance {
             balance.insert(k, -v);
         }
@@ -93,7 +93,7 @@ impl Add for Balance {
     type Output = Balance;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let mut total: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut total: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         let balances = vec![self, rhs];
         for bal in balances.iter() {
             for (cur, money) in bal.balance.iter() {
@@ -136,7 +136,7 @@ impl Sub for Balance {
 // Converter
 impl From<Money> for Balance {
     fn from(money: Money) -> Self {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         match money {
             Money::Zero => balance.insert(None, Money::Zero),
             Money::Money { ref currency, .. } => {
diff --git a/src/models/mod.rs b/src/models/mod.rs
index 89cc367..684be6b 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -1,5 +1,5 @@
 use num::rational::BigRational;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub use account::Account;
 pub use balance::Balance;
@@ -55,9 +55,9 @@ impl Ledger {
 impl ParsedLedger {
     /// Creates a proper ledger from a parsed ledger
     pub fn to_ledger(mut self, no_checks: bool) -> Result<Ledger, Error> {
-        let mut commodity_strs = HashSet::<String>::new();
-        let mut account_strs = HashSet::<String>::new();
-        let mut payee_strs = HashSet::<String>::new();
+        let mut commodity_strs = BTreeSet::<String>::new();
+        let mut account_strs = BTreeSet::<String>::new();
+        let mut payee_strs = BTreeSet::<String>::new();
 
         // 1. Populate the directive lists
 
diff --git a/src/models/price.rs b/src/models/price.rs
index ab180b9..6a4f494 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -3,7 +3,7 @@ use chrono::{Duration, NaiveDate};
 use num::rational::BigRational;
 use num::BigInt;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::rc::Rc;
@@ -178,12 +178,12 @@ struct Graph {
 
 impl Graph {
     fn from_prices(prices: &Vec<Price>, source: Node) -> Self {
-        let mut nodes = HashMap::new();
+        let mut nodes = BTreeMap::new();
         let mut edges = Vec::new();
-        let mut currency_dates = HashSet::new();
+        let mut currency_dates = BTreeSet::new();
         currency_dates.insert((source.currency.clone(), source.date));
         // Remove redundant prices and create the nodes
-        let mut prices_nodup = HashMap::new();
+        let mut prices_nodup = BTreeMap::new();
         for p in prices.iter() {
             if p.date > source.date {
                 continue;
-- 
2.43.0


From f88b18769d0e6d6f34e976edf8d22aeac5c687ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:02 +0000
Subject: [PATCH 13/50] fix: the unit price of a sale with a total cost is
 positive

---
 src/models/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 684be6b..406705e 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -427,7 +427,7 @@ impl ParsedLedger {
                                 amount: p.cost_amount.clone().unwrap()
                                     / match p.cost_type.as_ref().unwrap() {
                                         PriceType::Total => {
-                                            posting.amount.as_ref().unwrap().get_amount()
+                                            posting.amount.as_ref().unwrap().abs().get_amount()
                                         }
                                         PriceType::PerUnit => BigRational::from(BigInt::from(1)),
                                     },
-- 
2.43.0


From da6ecf56942609104a6c521126fa21bfaa5a0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:12 +0000
Subject: [PATCH 14/50] fix: convert with the path to the most recent price of
 a commodity

The date of the path already taken was not updated, so that an older path
could replace a more recent one, depending on the order of the map.
---
 src/models/price.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/models/price.rs b/src/models/price.rs
index 6a4f494..9711625 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -118,12 +118,8 @@ pub fn conversion(
         let mut mult = BigRational::new(BigInt::from(1), BigInt::from(1));
         let mut currency = k.currency.clone();
         match inserted.get(&k.currency) {
-            Some(x) => {
-                if *x > k.date {
-                    continue;
-                }
-            }
-            None => {
+            Some(x) if *x > k.date => continue,
+            _ => {
                 inserted.insert(currency.clone(), k.date);
             }
         }
-- 
2.43.0


From 04a895fd1772d8b579e5e9f93b0a7358fe2f6ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:22 +0000
Subject: [PATCH 15/50] fix: a posting without amount keeps its own tags when
 it is filled

---
 src/models/transaction.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 8295fe3..ea97ef7 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -295,6 +295,8 @@ impl Transaction<Posting> {
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
         let mut fill_payee = None;
+        let mut fill_comments = vec![];
+        let mut fill_tags = RefCell::new(vec![]);
         let mut postings: Vec<Posting> = Vec::new();
 
         for p in self.postings.get_mut().iter() {
@@ -396,6 +398,8 @@ impl Transaction<Posting> {
                 // We do nothing, but this is the account for the empty post
                 fill_account = p.account.clone();
                 fill_payee = p.payee.clone();
+                fill_comments = p.comments.clone();
+                fill_tags = p.tags.clone();
             }
         }
 
@@ -441,8 +445,8 @@ impl Transaction<Posting> {
                     balance: None,
                     cost: None,
                     kind: PostingType::Real,
-                    comments: self.comments.clone(),
-                    tags: RefCell::new(self.tags.clone()),
+                    comments: fill_comments.clone(),
+                    tags: fill_tags.clone(),
                     payee: fill_payee.clone(),
                     transaction: self.postings.borrow()[0].transaction.clone(),
                     origin: PostingOrigin::FromTransaction,
-- 
2.43.0


From 7e58a91e7d789382413915f5dbf17e10b6008cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:05 +0000
Subject: [PATCH 16/50] fix: equality of balances is symmetric

a == b ignored the commodities which were only in b. Balance assertions relied
on that to look at the asserted commodity only, which is now explicit.
---
 src/models/balance.rs     | 26 ++++++++++----------------
 src/models/transaction.rs |  5 ++++-
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/models/balance.rs b/src/models/balance.rs
index 1f0c1a0..417039e 100644
--- a/src/models/balance.rs
+++ b/src/models/balance.rs
@@ -1,5 +1,6 @@
 use crate::error::LedgerError;
 use crate::models::{Currency, Money};
+use num::rational::BigRational;
 use std::collections::btree_map::Iter;
 use std::collections::BTreeMap;
 use std::fmt;
@@ -59,6 +60,13 @@ impl Balance {
         }
         false
     }
+    /// The amount of a single commodity in the balance
+    pub fn get_amount(&self, commodity: &Option<Rc<Currency>>) -> BigRational {
+        self.balance
+            .get(commodity)
+            .unwrap_or(&Money::Zero)
+            .get_amount()
+    }
     pub fn len(&self) -> usize {
         self.balance.len()
     }
@@ -149,21 +157,7 @@ impl From<Money> for Balance {
 
 impl PartialEq for Balance {
     fn eq(&self, other: &Self) -> bool {
-        for (k, v) in self.balance.iter() {
-            let other_money = other.balance.get(k);
-            match other_money {
-                None => {
-                    if !v.is_zero() {
-                        return false;
-                    }
-                }
-                Some(money) => {
-                    if money != v {
-                        return false;
-                    }
-                }
-            }
-        }
-        true
+        // Entries which are zero do not count
+        (self.clone() - other.clone()).is_zero()
     }
 }
diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index ea97ef7..bd6c4a0 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -309,7 +309,10 @@ impl Transaction<Posting> {
                     + Balance::from(money.clone()); // What we add
                 if !skip_balance_check {
                     if let Some(balance) = &p.balance {
-                        if Balance::from(balance.clone()) != expected_balance {
+                        // Only the commodity of the assertion matters
+                        if balance.get_amount()
+                            != expected_balance.get_amount(&balance.get_commodity())
+                        {
                             eprintln!("Found:       {}", balance);
                             eprintln!("Expected:    {}", expected_balance);
                             eprintln!(
-- 
2.43.0


From 6beb75f7762f9038563e8329a444229ce2d971f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:15 +0000
Subject: [PATCH 17/50] fix: a balance assignment adjusts the assigned
 commodity only

With other commodities in the account the assignment failed or changed the
wrong one ('= 0 EUR' on an account with 3 USD removed the 3 USD), and the
account's other commodities were forgotten for later assertions.
---
 src/models/transaction.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index bd6c4a0..d26a3da 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -380,11 +380,16 @@ impl Transaction<Posting> {
 
                 // update the amount
                 let account_bal = balances.get(p.account.deref()).unwrap().clone();
-                let amount_bal = Balance::from(balance.clone()) - account_bal;
-                let money = amount_bal.to_money()?;
+                let money = Money::from((
+                    balance.get_commodity().unwrap(),
+                    balance.get_amount() - account_bal.get_amount(&balance.get_commodity()),
+                ));
                 transaction_balance = transaction_balance + Balance::from(money.clone());
                 // update the account balance
-                balances.insert(p.account.clone(), Balance::from(balance.clone()));
+                balances.insert(
+                    p.account.clone(),
+                    account_bal + Balance::from(money.clone()),
+                );
                 postings.push(Posting {
                     account: p.account.clone(),
                     amount: Some(money),
-- 
2.43.0


From 16eef873efe4b7fa223bdc035515c83cf30cdc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:26 +0000
Subject: [PATCH 18/50] fix: --no-balance-check only skips checks

A posting with nothing but '= X' was treated as a posting without amount, so
that its amount changed or the transaction was rejected.
---
 src/models/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index d26a3da..afa5af7 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -374,7 +374,7 @@ impl Transaction<Posting> {
                     transaction: p.transaction.clone(),
                     origin: PostingOrigin::FromTransaction,
                 });
-            } else if &p.balance.is_some() & !skip_balance_check {
+            } else if p.balance.is_some() {
                 // There is a balance
                 let balance = p.balance.as_ref().unwrap();
 
-- 
2.43.0


From 96d14c72f284c76890558f2ec4fce55bf4d75986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:13 +0000
Subject: [PATCH 19/50] fix: list the prices implied by transactions once

With automated transactions in the journal they were listed twice.
---
 src/models/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 406705e..c739f6e 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -174,6 +174,7 @@ impl ParsedLedger {
         }
 
         // Balance the transactions
+        let stated_prices = prices.len();
         for t in transactions.iter_mut() {
             let date = t.date.unwrap().clone();
             // output_balances(&balances);
@@ -307,7 +308,8 @@ impl ParsedLedger {
                 balances.insert(account.clone(), Balance::new());
             }
 
-            // Balance the transactions
+            // Balance the transactions, which gives their prices again
+            prices.truncate(stated_prices);
             for t in transactions.iter_mut() {
                 let date = t.date.unwrap().clone();
                 // output_balances(&balances);
-- 
2.43.0


From 9f602f78401b4b05b71fd10e1060b5653e3b7a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:26 +0000
Subject: [PATCH 20/50] fix: a factor in an automated transaction is not a
 commodity

The commodities report had an empty line for it.
---
 src/models/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index c739f6e..1bb2bbc 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -69,7 +69,13 @@ impl ParsedLedger {
                 }
                 // Currencies
                 if let Some(c) = &p.money_currency {
-                    commodity_strs.insert(c.clone());
+                    // A number without commodity in an automated transaction is a factor
+                    match transaction.transaction_type {
+                        TransactionType::Automated if c.is_empty() => {}
+                        _ => {
+                            commodity_strs.insert(c.clone());
+                        }
+                    }
                 }
                 if let Some(c) = &p.cost_currency {
                     commodity_strs.insert(c.clone());
-- 
2.43.0


From c8ac8ad66831215029125fb630ffdc5e54f5c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:59 +0000
Subject: [PATCH 21/50] fix: the command line takes precedence over the init
 file for every option

Only -f was known to be the short form of an option of the init file; -b, -e,
-d, -p and --option=value were refused as given twice, and --init-file=FILE was
ignored.
---
 src/app.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 0c2d7eb..aeef497 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -128,6 +128,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
             possible_paths.push(args[i + 1].clone());
             break;
         }
+        if args[i].starts_with("--init-file=") {
+            possible_paths.push(args[i]["--init-file=".len()..].to_string());
+            break;
+        }
     }
     possible_paths.push(shellexpand::tilde("~/.ledgerrc").to_string());
     possible_paths.push(".ledgerrc".to_string());
@@ -141,7 +145,11 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     }
     if let Some(file) = config_file {
         let mut aliases = HashMap::new();
-        aliases.insert("-f".to_string(), "--file".to_string());
+        aliases.insert("--file", "-f");
+        aliases.insert("--depth", "-d");
+        aliases.insert("--begin", "-b");
+        aliases.insert("--end", "-e");
+        aliases.insert("--period", "-p");
         let contents = read_to_string(file).unwrap();
         for line in contents.lines() {
             let option = line.trim_start();
@@ -154,8 +162,12 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                         );
                         let mut iter = line.split_whitespace();
                         let option = iter.next().unwrap();
+                        // The command line takes precedence, both in the long and short form
+                        let name = option.split('=').next().unwrap();
+                        let short = aliases.get(name);
                         if !args.iter().any(|x| {
-                            (x == option) | (aliases.get(x).unwrap_or(&String::new()) == option)
+                            (x.split('=').next() == Some(name))
+                                | short.map_or(false, |short| x.starts_with(short))
                         }) {
                             args.push(option.to_string());
                             let mut rest = String::new();
-- 
2.43.0


From f265dbeb083d3190214edc5de4e202bf06ebb06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 22/50] fix: reject value expressions as amounts of normal
 transactions

They were silently taken as postings without amount.
---
 src/parser/tokenizers/transaction.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 72b8062..919a555 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -255,6 +255,12 @@ fn parse_posting(
     loop {
         match tokenizer.get_char() {
             Some('(') => {
+                if let TransactionType::Real = transaction_type {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Value expressions are only supported in automated transactions"
+                            .to_string(),
+                    )));
+                }
                 if posting.money_amount.is_some() | posting.amount_expr.is_some() {
                     return Err(ParserError::UnexpectedInput(Some(
                         "Found more than one amount".to_string(),
-- 
2.43.0


From ec14c0be6d0d22b83b05589de51cb3fdc828aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:39 +0000
Subject: [PATCH 23/50] fix: reject an unreadable amount in an automated
 transaction

The rest of the line became an expression which could never be evaluated; at
the end of a file without final newline the parser looped.
---
 src/parser/tokenizers/transaction.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 919a555..60420da 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -339,15 +339,7 @@ fn parse_posting(
                     posting.money_amount = Some(money.0);
                     posting.money_currency = Some(money.1);
                 }
-                Err(e) => match transaction_type {
-                    TransactionType::Real | TransactionType::Periodic => return Err(e),
-                    TransactionType::Automated => {
-                        posting.amount_expr = Some(chars::get_line(tokenizer));
-
-                        tokenizer.line_index -= 1;
-                        tokenizer.position -= 1;
-                    }
-                },
+                Err(e) => return Err(e),
             },
         }
         chars::consume_whitespaces(tokenizer);
-- 
2.43.0


From 84751f1cea444e6d703a86a4529c272c6e61ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:49 +0000
Subject: [PATCH 24/50] fix: reject virtual postings without amount

check accepted them, but balance and register panicked on them.
---
 src/models/transaction.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index afa5af7..ac77d99 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -291,6 +291,16 @@ impl Transaction<Posting> {
             true => {}
             false => return Err(LedgerError::TransactionIsNotBalanced),
         }
+        // The amounts of virtual postings cannot be deduced
+        let empties = self
+            .postings
+            .borrow()
+            .iter()
+            .filter(|p| (p.kind != PostingType::Real) & p.amount.is_none())
+            .count();
+        if empties > 0 {
+            return Err(LedgerError::TooManyEmptyPostings(empties));
+        }
 
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
-- 
2.43.0


From 2f1a943674428b25e8f1f0aa4ab971b9e92e290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:30 +0000
Subject: [PATCH 25/50] fix: detect every include cycle and missing included
 files

A cycle through a differently spelled path (include sub/../journal.ledger) went
unnoticed until the stack overflowed, an included file which does not exist was
ignored, as was one whose line ends in CRLF or a space or whose parent
directory contains a wildcard character, and an unknown directive starting with
i failed without a message.
---
 src/parser/include.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index dd4e708..dc48e62 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -1,12 +1,14 @@
 use crate::parser::{chars, ParsedLedger, Tokenizer};
 
 use crate::{Error, ParserError};
-use glob::glob;
+use glob::{glob, Pattern};
 use std::path::PathBuf;
 
 /// Handles include directive
 pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
-    chars::consume_str(tokenizer, &"include ".to_string())?;
+    if let Err(e) = chars::consume_str(tokenizer, &"include ".to_string()) {
+        return Err(tokenizer.error(e));
+    }
     let mut pattern = String::new();
     let mut files: Vec<PathBuf> = Vec::new();
     if let Some(current_path) = tokenizer.file {
@@ -16,26 +18,30 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
             parent.push('.')
         }
         parent.push('/');
-        pattern.push_str(parent.as_str());
+        pattern.push_str(Pattern::escape(parent.as_str()).as_str());
     }
-    pattern.push_str(chars::get_line(tokenizer).as_str());
+    let line = chars::get_line(tokenizer);
+    pattern.push_str(line.trim());
     for entry in glob(&pattern).expect("Failed to read glob pattern") {
         match entry {
             Ok(path) => {
                 files.push(path.clone());
-                match tokenizer.seen_files.get(&path) {
-                    Some(_) => {
-                        return Err(tokenizer.error(ParserError::IncludeLoop(format!(
-                            "Cycle detected. {:?}",
-                            &path
-                        ))))
-                    }
-                    None => (),
+                // The same file can be written in different ways
+                let canonical = path.canonicalize().unwrap_or(path.clone());
+                let mut seen_files = tokenizer.seen_files.iter();
+                if seen_files.any(|seen| seen.canonicalize().map_or(false, |s| s == canonical)) {
+                    return Err(tokenizer.error(ParserError::IncludeLoop(format!(
+                        "Cycle detected. {:?}",
+                        &path
+                    ))));
                 }
             }
             Err(e) => eprintln!("{:?}", e),
         }
     }
+    if files.is_empty() & !line.contains(&['*', '?', '['][..]) {
+        return Err(tokenizer.error(ParserError::CannotReadFile(pattern)));
+    }
     let mut items: ParsedLedger = ParsedLedger::new();
     for file in files {
         let mut inner_tokenizer: Tokenizer = Tokenizer::from(&file);
-- 
2.43.0


From bac7e0f0c35bf857d00a36d259da9ea4188143fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:42 +0000
Subject: [PATCH 26/50] fix: the name of a tag on the first line of a
 transaction has no semicolon

'; key: value' after the payee defined the tag '; key'.
---
 src/parser/tokenizers/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 60420da..43012d2 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -54,7 +54,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item),
+            comment: parse_string(next_item)[1..].trim_start().to_string(), // without the ;
         });
     }
 
-- 
2.43.0


From 1b714b98ebd255dbc88f17e25aa913e9e2db469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:53 +0000
Subject: [PATCH 27/50] fix: the carriage return of CRLF is not part of the
 line

Comments lost their tags and payees had a different name in such files.
---
 src/parser/chars.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index c674a4e..e5a0418 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -98,6 +98,10 @@ pub(super) fn get_line(tokenizer: &mut Tokenizer) -> String {
         }
         retval.push(*c);
     }
+    // The line may end in CRLF
+    if retval.last() == Some(&'\r') {
+        retval.pop();
+    }
     retval.iter().collect()
 }
 
-- 
2.43.0


From 16e8198502cb81e56f2946212398dfa0555af205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 28/50] fix: List::get_regex finds elements and aliases added
 after a first search

---
 src/list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/list.rs b/src/list.rs
index e26ba92..9ab5191 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -38,6 +38,7 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 
     /// Inserts an ```element``` in the list
     pub fn insert(&mut self, element: T) {
+        self.matches.clear(); // what was found before may be different now
         let found = self.list.get(&element.get_name().to_lowercase());
         match found {
             Some(_) => eprintln!("Duplicate element: {:?}", element), // do nothing
@@ -53,6 +54,7 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
     }
     /// Add an alias
     pub fn add_alias(&mut self, alias: String, for_element: &'a T) {
+        self.matches.clear(); // what was found before may be different now
         let element = self.aliases.get(&alias.to_lowercase());
         match element {
             Some(x) => panic!(
@@ -131,6 +133,7 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 
 impl<T: Clone> List<T> {
     pub fn append(&mut self, other: &List<T>) {
+        self.matches.clear(); // what was found before may be different now
         self.list.extend(other.to_owned().list.into_iter());
         self.aliases.extend(other.to_owned().aliases.into_iter());
     }
-- 
2.43.0


From 399c008d06772a11a4845504e150d35e6f8054cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:33 +0000
Subject: [PATCH 29/50] fix: a directive in an included file does not replace
 an earlier one

Within one file the first directive for a name stays.
---
 src/list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 9ab5191..6fbb9aa 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -134,8 +134,16 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 impl<T: Clone> List<T> {
     pub fn append(&mut self, other: &List<T>) {
         self.matches.clear(); // what was found before may be different now
-        self.list.extend(other.to_owned().list.into_iter());
-        self.aliases.extend(other.to_owned().aliases.into_iter());
+        // As in insert, the element which was there first stays
+        for (name, element) in other.list.iter() {
+            if self.list.contains_key(name) {
+                continue;
+            }
+            for (alias, _) in other.aliases.iter().filter(|x| x.1 == name) {
+                self.aliases.insert(alias.clone(), name.clone());
+            }
+            self.list.insert(name.clone(), element.clone());
+        }
     }
 }
 
-- 
2.43.0


From 3b41e4d2b3b251e9173011639c088fb8b7475d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:45 +0000
Subject: [PATCH 30/50] fix: the note and trailing spaces are not part of a
 payee's name

---
 src/parser/tokenizers/payee.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index a0c0ff0..e13b9ac 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -13,8 +13,8 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
         r"(payee) +"            , // payee directive
-        r"(.*)"                 , // description
-        r"(  ;.*)?"             , // note
+        r"(.*?)"                , // description
+        r"(  ;.*)?$"            , // note
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
@@ -38,7 +38,7 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
                     2 =>
                     // description
                     {
-                        name = m.as_str().to_string()
+                        name = m.as_str().trim().to_string()
                     }
                     3 =>
                     // note
-- 
2.43.0


From cdb90f9080692eae8e4954dfcaf49ba07183e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:16 +0000
Subject: [PATCH 31/50] fix: show every account of the tree balance with its
 own balance

An account was put on the line of the previous one although it had a different
balance (the parent having postings of its own), was not its sub-account, or
was deeper than --depth; and an account like 'Eps Old' came between Eps and
its sub-accounts.
---
 src/commands/balance.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index dc15ab0..1573411 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -153,7 +153,12 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         }
     }
 
-    vec_balances.sort_by(|a, b| a.0.cmp(b.0));
+    if flat {
+        vec_balances.sort_by(|a, b| a.0.cmp(b.0));
+    } else {
+        // Every account has to come right before its sub-accounts
+        vec_balances.sort_by(|a, b| a.0.split(":").cmp(b.0.split(":")));
+    }
     let num_bal = vec_balances.len();
     let mut index = 0;
     let mut showed_balances = 0;
@@ -201,12 +206,18 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
                 if (index + 1) >= num_bal {
                     break;
                 }
-                if vec_balances[index + 1].0.split(":").count() != (n + 1) {
+                // Only a sub-account with the same balance can share the line
+                let prefix = format!("{}:", vec_balances[index].0);
+                let (next, next_balance) = &vec_balances[index + 1];
+                if !next.starts_with(&prefix) | (next.split(":").count() != (n + 1)) {
+                    break;
+                }
+                if (next_balance != bal) | depth.map_or(false, |depth| n + 1 > depth) {
                     break;
                 }
                 for j in (index + 2)..num_bal {
                     let name = vec_balances[j].0.clone();
-                    if !name.starts_with(account) {
+                    if !name.starts_with(&prefix) {
                         break;
                     }
                     let this_depth = name.split(":").count();
-- 
2.43.0


From 908a041da3316a019ce5b6591d94fff8b5cbfd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:19 +0000
Subject: [PATCH 32/50] fix: reject expressions which are too complex to be
 evaluated

They overflowed the stack, killing the program.
---
 src/parser/value_expr.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 25cba5d..ec76161 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -27,11 +27,35 @@ pub fn build_root_node_from_expression(
         .into_inner()
         .next()
         .unwrap();
+    check_complexity(expression, parsed.clone());
 
     // Build the abstract syntax tree
     build_ast_from_expr(parsed, regexes)
 }
 
+/// Expressions are built and evaluated recursively, reject those which would overflow the stack
+fn check_complexity(expression: &str, parsed: pest::iterators::Pair<Rule>) {
+    let operands = parsed
+        .into_inner()
+        .flatten()
+        .filter(|x| x.as_rule() == Rule::primary)
+        .count();
+    let mut nested: usize = 0;
+    let mut max_nested = 0;
+    for c in expression.chars() {
+        match c {
+            '(' => nested += 1,
+            ')' => nested = nested.saturating_sub(1),
+            _ => (),
+        }
+        max_nested = max_nested.max(nested);
+    }
+    assert!(
+        (operands <= 1000) & (max_nested <= 100),
+        "expression too complex"
+    );
+}
+
 pub fn eval_expression(
     expression: &str,
     posting: &Posting,
@@ -39,16 +63,7 @@ pub fn eval_expression(
     commodities: &mut List<Currency>,
     regexes: &mut HashMap<String, Regex>,
 ) -> EvalResult {
-    let parsed = GrammarParser::parse(Rule::value_expr, expression)
-        .expect("unsuccessful parse") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner()
-        .next()
-        .unwrap();
-
-    // Build the abstract syntax tree
-    let root = build_ast_from_expr(parsed, regexes);
+    let root = build_root_node_from_expression(expression, regexes);
     eval(&root, posting, transaction, commodities, regexes)
 }
 
-- 
2.43.0


From 444c2f32db5b5edc35c7015fa84ec7bd6e6fab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:58 +0000
Subject: [PATCH 33/50] fix: read the whole year of a date on the command line

12020-01-01 was taken as 2020-01-01.
---
 src/app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index aeef497..685ab44 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -245,8 +245,8 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
 /// A parser for date expressions
 pub fn date_parser(date: &str) -> Result<NaiveDate, Error> {
     lazy_static! {
-        static ref RE_MONTH: Regex = Regex::new(r"(\d{4})[/-](\d\d?)$").unwrap();
-        static ref RE_DATE: Regex = Regex::new(r"(\d{4})[/-](\d\d?)[/-](\d\d?)$").unwrap();
+        static ref RE_MONTH: Regex = Regex::new(r"^(\d{4})[/-](\d\d?)$").unwrap();
+        static ref RE_DATE: Regex = Regex::new(r"^(\d{4})[/-](\d\d?)[/-](\d\d?)$").unwrap();
     }
     if RE_DATE.is_match(date) {
         let captures = RE_DATE.captures(date).unwrap();
-- 
2.43.0


From 04627c5cf852d04c187bff6da79f96a56b6b4322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:09 +0000
Subject: [PATCH 34/50] fix: reject text before the account, payee and tag
 directives

'an account name' was read as the directive 'account name'.
---
 src/parser/tokenizers/account.rs | 2 +-
 src/parser/tokenizers/payee.rs   | 2 +-
 src/parser/tokenizers/tag.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index 90119d0..c820b49 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -9,7 +9,7 @@ use std::collections::HashSet;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}",
-        r"(account) +"        , // directive commodity
+        r"^(account) +"        , // directive commodity
         r"(.*)"                 , // description
         ).as_str()).unwrap();
     }
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index e13b9ac..3ef2f70 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -12,7 +12,7 @@ use crate::ParserError;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
-        r"(payee) +"            , // payee directive
+        r"^(payee) +"            , // payee directive
         r"(.*?)"                , // description
         r"(  ;.*)?$"            , // note
         ).as_str()).unwrap();
diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index 52ef6b5..0929c84 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -9,7 +9,7 @@ use crate::ParserError;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}",
-        r"(tag) +"        , // tag directive
+        r"^(tag) +"        , // tag directive
         r"(.*)"           , // description
         ).as_str()).unwrap();
     }
-- 
2.43.0


From dbfc17aec57f6862a4628c7c1b98301a0669ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:25 +0000
Subject: [PATCH 35/50] fix: reject text after the value expression of a
 posting

---
 src/parser/tokenizers/transaction.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 43012d2..b8f637e 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -267,7 +267,16 @@ fn parse_posting(
                     )));
                 }
                 // This is a value expression
-                posting.amount_expr = Some(chars::get_value_expression(tokenizer));
+                let expression = chars::get_value_expression(tokenizer);
+                match GrammarParser::parse(Rule::value_expr, expression.as_str()) {
+                    Ok(parsed) if parsed.as_str().trim_end() == expression.trim_end() => {}
+                    _ => {
+                        return Err(ParserError::UnexpectedInput(Some(
+                            "Wrong value expression".to_string(),
+                        )))
+                    }
+                }
+                posting.amount_expr = Some(expression);
             }
             Some('\n') => break,
             None => break,
-- 
2.43.0


From bb961e059d4d99eee0c6d9981412561647d4c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:48 +0000
Subject: [PATCH 36/50] fix: trailing spaces are not part of the value of a tag

---
 src/models/comment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/comment.rs b/src/models/comment.rs
index 9394244..775bf27 100644
--- a/src/models/comment.rs
+++ b/src/models/comment.rs
@@ -13,7 +13,7 @@ impl Comment {
             r"(:.+:) *$" , // the tags
             ).as_str()).unwrap();
             static ref RE_TAG_VALUE: Regex = Regex::new(format!("{}",
-            r" *(.*): *(.*) *$"
+            r" *(.*): *(.*?) *$"
             ).as_str()).unwrap();
         }
 
-- 
2.43.0


From f2cd1cd704f2030ba938933a9f2e7e49c5e8e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 37/50] fix: a division in a quoted expression does not join
 the terms of an automated query

---
 src/models/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index ac77d99..754c002 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -69,7 +69,7 @@ impl<T> Transaction<T> {
                     }
                     if c == '"' {
                         in_string = !in_string;
-                    } else if c == '/' {
+                    } else if (c == '/') & !in_string {
                         in_regex = !in_regex;
                         current.push(c);
                     } else {
-- 
2.43.0


From d2008cc19cbcd90a8c5a68f9576a7297369efc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:49 +0000
Subject: [PATCH 38/50] fix: white space at the end of a comment is not part of
 it

---
 src/parser/tokenizers/comment.rs     | 2 +-
 src/parser/tokenizers/transaction.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/comment.rs b/src/parser/tokenizers/comment.rs
index 27e9061..15d75c5 100644
--- a/src/parser/tokenizers/comment.rs
+++ b/src/parser/tokenizers/comment.rs
@@ -30,6 +30,6 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Comment {
     tokenizer.line_position += 1;
     chars::consume_whitespaces(tokenizer);
     return Comment {
-        comment: chars::get_line(tokenizer),
+        comment: chars::get_line(tokenizer).trim_end().to_string(),
     };
 }
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index b8f637e..2983526 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -54,7 +54,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item)[1..].trim_start().to_string(), // without the ;
+            comment: parse_string(next_item)[1..].trim().to_string(), // without the ;
         });
     }
 
-- 
2.43.0


From bc13d317c5992dd726bfbf9c7f7469afaeca503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:54 +0000
Subject: [PATCH 39/50] fix: money is ordered by its amount, also when compared
 with zero

---
 src/models/money.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index a9c3a6f..35e6cb7 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -43,7 +43,7 @@ use std::cmp::Ordering;
 /// # assert_eq!(*b2.balance.get(&Some(eur.clone())).unwrap(), m1);
 /// # assert_eq!(*b2.balance.get(&Some(usd.clone())).unwrap(), d1);
 /// ```
-#[derive(Clone, Debug, PartialOrd)]
+#[derive(Clone, Debug)]
 pub enum Money {
     Zero,
     Money {
@@ -144,6 +144,16 @@ impl PartialEq for Money {
     }
 }
 
+impl PartialOrd for Money {
+    /// Amounts of different currencies are not ordered
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        match (self.get_commodity(), other.get_commodity()) {
+            (Some(c1), Some(c2)) if c1 != c2 => None,
+            _ => Some(self.cmp(other)),
+        }
+    }
+}
+
 impl Ord for Money {
     fn cmp(&self, other: &Self) -> Ordering {
         let self_amount = self.get_amount();
-- 
2.43.0


From 4c27ee3ca0bceffc9637a70a20778b9decd0519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:13 +0000
Subject: [PATCH 40/50] fix: the value after = in the init file may contain
 spaces

---
 src/app.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/app.rs b/src/app.rs
index 685ab44..41dc234 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -169,12 +169,17 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                             (x.split('=').next() == Some(name))
                                 | short.map_or(false, |short| x.starts_with(short))
                         }) {
-                            args.push(option.to_string());
                             let mut rest = String::new();
                             for arg in iter {
                                 rest.push_str(" ");
                                 rest.push_str(arg);
                             }
+                            if option.contains('=') {
+                                // the value may contain spaces
+                                args.push(format!("{}{}", option, rest));
+                                continue;
+                            }
+                            args.push(option.to_string());
                             if rest.len() > 0 {
                                 args.push(rest.trim().to_string());
                             }
-- 
2.43.0


From e0f0482fdfaa504b2bf10534e1f990e580f00425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:01 +0000
Subject: [PATCH 41/50] fix: report a cost missing at the end of the file
 instead of panicking

---
 src/parser/tokenizers/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 2983526..9715b55 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -317,7 +317,7 @@ fn parse_posting(
 
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
-                if tokenizer.get_char().unwrap() == '@' {
+                if tokenizer.get_char() == Some('@') {
                     tokenizer.position += 1;
                     tokenizer.line_position += 1;
                     posting.cost_type = Some(PriceType::Total);
-- 
2.43.0


From 1a8cfb9490020528cfda67df1ab0aeb293e454b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:06 +0000
Subject: [PATCH 42/50] fix: tabs and line breaks are white space in prices and
 expressions, not part of a commodity

---
 src/grammar/grammar.pest | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 9e68625..246359f 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -67,9 +67,9 @@ string = {
 	("'" ~ (("\\'") | (!"'" ~ ANY))* ~ "'")
     }
 reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |  ")" | ";"}
-keyword = _{ ("and" | "or" | "not") ~ (reserved | SEPARATOR | EOI) }
+keyword = _{ ("and" | "or" | "not") ~ (reserved | SEPARATOR | ws | EOI) }
 unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~ !"!" ~ !keyword ~
-    (!reserved ~ !SEPARATOR ~ ANY)+ }
+    (!reserved ~ !SEPARATOR ~ !ws ~ ANY)+ }
 variable = {
     "account" |
     "payee" |
@@ -97,7 +97,7 @@ variable = {
 // helpers
 number = { "-"? ~ bigint ~ ("." ~ bigint)? }
 bigint = _{ ASCII_DIGIT+ }
-ws = _{" "}
+ws = _{" " | "\t" | NEWLINE}
 end = { EOI | NEWLINE }
 
 
-- 
2.43.0


From f7a74a7b52cbb021c42b549002a5036320b7622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:15 +0000
Subject: [PATCH 43/50] fix: keep the tag directives of included files

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 382ade3..9f51383 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -60,6 +60,7 @@ impl ParsedLedger {
         self.comments.append(&mut other.comments);
         self.transactions.append(&mut other.transactions);
         self.prices.append(&mut other.prices);
+        self.tags.append(&mut other.tags);
     }
 
     pub fn len(&self) -> usize {
-- 
2.43.0


From 4bd98d7ae99ae72578f08c01124cf162318ae329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:36 +0000
Subject: [PATCH 44/50] fix: find included files when a path contains a double
 slash

---
 src/parser/include.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index dc48e62..e425b2d 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -22,6 +22,10 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
     }
     let line = chars::get_line(tokenizer);
     pattern.push_str(line.trim());
+    // The glob crate finds nothing below an empty path component
+    while pattern.contains("//") {
+        pattern = pattern.replace("//", "/");
+    }
     for entry in glob(&pattern).expect("Failed to read glob pattern") {
         match entry {
             Ok(path) => {
-- 
2.43.0


From 55aa542edf7550fb1ae622f7d9316aca48e8ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:58 +0000
Subject: [PATCH 45/50] fix: a commodity that starts like a variable can
 precede its number

---
 src/grammar/grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 246359f..7631dc9 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -70,7 +70,7 @@ reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |
 keyword = _{ ("and" | "or" | "not") ~ (reserved | SEPARATOR | ws | EOI) }
 unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~ !"!" ~ !keyword ~
     (!reserved ~ !SEPARATOR ~ !ws ~ ANY)+ }
-variable = {
+variable = { (
     "account" |
     "payee" |
     "date" |
@@ -91,7 +91,7 @@ variable = {
     // Abbreviations go later
     "T" | "N" | "O" | "Z" | "R" | "X" |
     "n" | "l" | "g" | "v" | "b"
-}
+) ~ !(LETTER | ASCII_DIGIT | "_") }
 
 
 // helpers
-- 
2.43.0


From 65ad41eb90bd7e7409055a82150a3f41fa439347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:17 +0000
Subject: [PATCH 46/50] fix: do not read part of a number as a commodity

P 2020-01-01 EUR 1,000USD was read as a price of 1 in a commodity named
,000USD. It is not a number the program can read: reject it.
---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 7631dc9..6645312 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -68,7 +68,7 @@ string = {
     }
 reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |  ")" | ";"}
 keyword = _{ ("and" | "or" | "not") ~ (reserved | SEPARATOR | ws | EOI) }
-unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~ !"!" ~ !keyword ~
+unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~ !"!" ~ !"," ~ !"." ~ !keyword ~
     (!reserved ~ !SEPARATOR ~ !ws ~ ANY)+ }
 variable = { (
     "account" |
-- 
2.43.0


From 334963a5893f823557fd6a682121f98eccbeee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 47/50] fix: a directory that an include wildcard cannot list
 is an error

---
 src/parser/include.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index e425b2d..5ad480f 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -40,7 +40,9 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
                     ))));
                 }
             }
-            Err(e) => eprintln!("{:?}", e),
+            Err(e) => {
+                return Err(tokenizer.error(ParserError::CannotReadFile(e.to_string())));
+            }
         }
     }
     if files.is_empty() & !line.contains(&['*', '?', '['][..]) {
-- 
2.43.0


From cb037c2428b6377fdab8c7f898526d07f27108c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:31 +0000
Subject: [PATCH 48/50] fix: a minus sign after the decimal point of an amount
 is an error

---
 src/parser/tokenizers/transaction.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 9715b55..d7ab7ec 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -414,6 +414,11 @@ fn parse_amount(tokenizer: &mut Tokenizer) -> Result<BigRational, ParserError> {
                     decimal = true
                 }
             }
+            Some('-') if decimal => {
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Wrong number format".to_string(),
+                )));
+            }
             Some(c) if (c == '-') | c.is_numeric() => {
                 num.push(c);
                 if decimal {
-- 
2.43.0


From e93e3c240b341a4c0d01b75f113557bc426542cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 49/50] fix: a short description is not cut in the register
 because of its non-ASCII letters

---
 src/commands/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/register.rs b/src/commands/register.rs
index 5fecc64..f006a89 100644
--- a/src/commands/register.rs
+++ b/src/commands/register.rs
@@ -128,7 +128,7 @@ pub fn execute(options: &CommonOpts) -> Result<(), Error> {
 }
 
 fn clip(string: &String, width: usize) -> String {
-    if string.len() < width - 3 {
+    if string.chars().count() < width - 3 {
         string.to_string()
     } else {
         let mut ret = String::new();
-- 
2.43.0


From bd08c4615fcfec22eef6d9d29d16c5edd38aa1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 50/50] fix: options of the init file are options also when the
 command line has --

---
 src/app.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/app.rs b/src/app.rs
index 41dc234..2826aa7 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -122,6 +122,11 @@ pub struct CommonOpts {
 /// Entry point for the command line app
 pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     // println!("{:?}", args);
+    // What comes after -- are not options
+    let operands = match args.iter().position(|x| x == "--") {
+        Some(i) => args.split_off(i),
+        None => Vec::new(),
+    };
     let mut possible_paths: Vec<String> = Vec::new();
     for i in 0..args.len() {
         if args[i] == "--init-file" {
@@ -193,6 +198,7 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
             }
         }
     }
+    args.extend(operands);
     let opt: Opt = Opt::from_iter(args.iter());
 
     // Print options
-- 
2.43.0

