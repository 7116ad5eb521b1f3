#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))
M='src/models/'; T='src/parser/tokenizers/'; C='src/commands/'
p("C01","Only journals whose transactions balance are accepted",
  "A journal is accepted exactly when, in every transaction, the real postings (a posting with a cost counting at its cost) either leave no remainder or leave a remainder in several commodities with at least one positive and one negative, the bracketed virtual postings do the same among themselves, and at most one real posting leaves its amount out (in which case the real postings always balance). Virtual postings state their amount and carry no cost. Sums are exact, however large, small or numerous the amounts. A journal that is not accepted makes every command fail with a non-zero exit status and print no report.",
  ["inputs"],"every journal of transactions with real, virtual and bracketed postings, costs and omitted amounts, including remainders of any size",
  "tests/ has two unbalanced files and a handful of balanced ones; none has a remainder below a cent, three commodities, a bracketed group that does not balance by itself, or more than one omitted amount",
  [M+'transaction.rs',M+'balance.rs',M+'mod.rs'],
  [("transaction balancing",M+"transaction.rs: Transaction::balance"),("group totals",M+"transaction.rs: total_balance"),("sign rule",M+"balance.rs: can_be_zero")],
  ["exit status and standard output of check, bal, reg, accounts, payees, commodities, prices"])
p("C02","An omitted amount is filled with exactly what balances the transaction",
  "When one real posting of a transaction leaves its amount out, reports show that account receiving, for each commodity in which the other real postings leave a remainder, exactly the negated remainder, and nothing when there is none. The filled posting keeps the account, payee, tags and real kind it was written with and is found by queries like any other posting, and no other posting of the transaction changes.",
  ["inputs"],"every accepted transaction with an omitted amount, in any position, with any mix of commodities, costs and virtual postings",
  "the tests only count report lines of single-commodity transactions whose last posting is the empty one",
  [M+'transaction.rs'],[("fill of the empty posting",M+"transaction.rs: Transaction::balance (last branch)")],["reg and bal output, with and without queries"])
p("C03","The flat balance report is the exact sum of the matching postings",
  "For every accepted journal, query and date range, the flat balance report shows each account whose matching postings have a non-zero sum exactly once, with one amount per commodity equal to the exact sum of those postings, and no other account. When more than one account is shown the total line is the sum of all matching postings (0 when they cancel), and --no-total removes exactly that. With a depth limit, accounts are merged into their ancestors of that depth and their sums added.",
  ["inputs","configurations"],"every journal, query, date range and depth, any number of accounts and commodities",
  "the tests compare numbers of lines, never amounts, on one demo file",
  [C+'balance.rs',M+'balance.rs',M+'money.rs'],[("accumulation",C+"balance.rs: execute"),("commodity-wise addition",M+"balance.rs: Add")],["bal --flat output"])
p("C04","The tree balance shows every account with the sum of its sub-accounts",
  "In the tree balance every displayed account carries the exact sum of the matching postings to it and all its sub-accounts (whole name components, so Assets never absorbs Assets2), accounts whose sum is zero are left out, sub-accounts follow their parent in name order and are indented by their depth, and each account appears exactly once. An account is written on the line of its parent only when it is the only direct sub-account of it shown and has the same balance, and always when besides nothing else with a balance is below the parent. With --depth N nothing below level N is shown and the amounts shown do not change.",
  ["inputs","configurations"],"every set of accounts and balances, including postings to inner accounts, sums that cancel, and names that are prefixes of each other; every depth",
  "the tests count the lines of one file at depth 1; issue #8 (prefix names) has no test",
  [C+'balance.rs'],[("aggregation over ancestors",C+"balance.rs: execute (not flat)"),("collapsing of single-child chains",C+"balance.rs: execute (print loop)")],["bal output with and without --depth"])
p("C05","The register lists every matching posting once with its running total",
  "For every accepted journal, query and date range the register has exactly one row per matching posting, carrying its date, description (cut short when it is too long for its column), account (in parentheses or brackets when virtual) and amount, grouped by transaction in date order, with transactions of the same date in the order they were written. The running total of each row is the exact sum, per commodity, of all amounts shown up to and including it, with commodities that sum to zero left out and 0 when all do.",
  ["inputs","histories"],"every sequence of transactions, query and date range",
  "the tests count rows; no amount, order or running total is checked",
  [C+'register.rs',M+'mod.rs'],[("row loop and running balance",C+"register.rs: execute"),("stable sort by date",M+"mod.rs: to_ledger")],["reg output"])
p("C06","Balance and register agree with each other, and date slices add up",
  "For any journal, query and date range, the amounts in the register add up, account by account, to the flat balance report under the same options, and the last running total equals its total. For any date D, the balance before D (--end D) plus the balance from D on (--begin D) is the balance of everything; --begin includes its day and --end excludes it.",
  ["inputs","configurations"],"every journal, query and pair of dates",
  "tests never compare two reports, and use one date range on one file",
  [C+'balance.rs',C+'register.rs','src/filter.rs','src/app.rs'],[("date filter","src/filter.rs: filter"),("reports",C+"balance.rs, "+C+"register.rs")],["bal --flat and reg output under the same options"])
p("C07","A query selects exactly the postings it describes",
  "A report restricted by a query shows exactly the postings that satisfy it: a plain word matches account names as a case-insensitive regular expression, /re/ matches account names case-sensitively, @word matches the payee and %word a tag name, both case-insensitively, and expr followed by an expression selects the postings for which it is true. Any number of terms may be given; terms are joined by or unless and is written between them, and and binds tighter than or.",
  ["inputs"],"every list of query terms of any length over every journal",
  "one or two terms on one file, counted by lines",
  ['src/filter.rs','src/parser/value_expr.rs',M+'transaction.rs'],[("query expansion","src/filter.rs: preprocess_query"),("predicate evaluation","src/parser/value_expr.rs: eval"),("grammar","src/grammar/grammar.pest")],["reg and bal output with query arguments"])
p("C08","Value expressions are evaluated exactly and with the usual precedence",
  "An expression over numbers, amounts with a commodity, amount, date, account, payee, note and tags evaluates to its mathematical value: arithmetic is exact and left-associative, * and / bind tighter than + and -, those tighter than comparisons, then not, and, or; unary minus applies to the operand that follows it, and parentheses, abs, any, to_date, has_tag and tag mean what they say. Chains of operators use every operand (expressions of more than 1000 operands or 100 levels of nesting are rejected), and the result decides which postings a report shows.",
  ["inputs","programs"],"every well-typed expression of any shape and length",
  "nine fixed expressions, none with more than one operator at a level or with mixed precedence",
  ['src/parser/value_expr.rs','src/grammar/grammar.pest'],[("expression tree","src/parser/value_expr.rs: build_ast_from_expr"),("evaluation","src/parser/value_expr.rs: eval"),("grammar","src/grammar/grammar.pest: value_expr")],["reg output with expr queries; amounts of automated postings"])
p("C09","Balance assertions are checked against the account's balance at that point",
  "A real posting with an amount and '= X' makes the journal fail exactly when the balance of its account in X's commodity, after that posting, differs from X; other commodities in the account do not matter. A real posting with only '= X' receives exactly the amount in X's commodity that brings the account to X. Balances are taken over all real postings, across files, in date order (ties in the order written), also when automated transactions add postings elsewhere, and --no-balance-check turns off these checks and nothing else.",
  ["inputs","histories"],"every history of transactions over several accounts and commodities, with assertions anywhere and files in any order",
  "one test with a single account, commodity and date order",
  [M+'transaction.rs',M+'mod.rs',M+'balance.rs'],[("assertion and assignment",M+"transaction.rs: Transaction::balance"),("global date sort",M+"mod.rs: to_ledger"),("balance comparison",M+"balance.rs: PartialEq")],["exit status; reg and bal amounts"],
  [("account balances","running balance per account while transactions are balanced",M+"mod.rs: to_ledger balances")])
p("C10","Reports do not depend on where in the journal an entry is written",
  "Reordering the transactions, price lines, directives and comments of a journal, or distributing them over included files, changes no report, no verdict and no balance assertion outcome, as long as transactions of the same date, automated transactions, and prices of the same pair and date keep their relative order. In particular directives take effect on entries written before them.",
  ["inputs","histories"],"every journal and every permutation or split of it that keeps same-date order",
  "no test permutes a file",
  [M+'mod.rs','src/parser/mod.rs','src/parser/include.rs'],[("two-phase build: lists first, then transactions",M+"mod.rs: to_ledger"),("stable sort",M+"mod.rs: to_ledger"),("append of included items","src/parser/mod.rs: ParsedLedger::append")],["all reports"])
p("C11","Including a file is the same as pasting its contents",
  "An include line contributes every transaction, price, account, payee and commodity of each file it names exactly once, as if the text stood in its place; the path is relative to the including file at any nesting depth, and a wildcard includes every matching file. The same file may be included from several places, and each inclusion counts. A file that includes itself, directly or through others and however the path is spelled, or a plain path that does not exist, is an error and not a hang or a silently shorter journal.",
  ["inputs","configurations"],"every tree of files and directories, wildcard and cycle",
  "the include tests cannot run here (their data are LFS pointers), and they test one level",
  ['src/parser/include.rs','src/parser/mod.rs'],[("include handling","src/parser/include.rs: parse"),("merge","src/parser/mod.rs: ParsedLedger::append")],["all reports; exit status"],
  [("files being read","set of files on the current include path","src/parser/mod.rs: Tokenizer.seen_files")])
p("C12","-X values every commodity at the most recent price",
  "In a balance report with -X, every amount whose commodity can be reached from the requested one, which the journal knows, through known prices is replaced by its value, using for each pair of commodities the most recent price dated today or earlier, inverted where needed and multiplied exactly along the path of prices closest in time; accounts and totals are converted consistently, so the value of a sum is the sum of the values. Amounts without any such path are left in their own commodity, and the requested name may be an alias or in other capitals.",
  ["inputs"],"every set of prices (P lines, @ and @@ costs, implicit exchanges, in any order, future-dated included) and every target",
  "two fixed files with at most seven prices",
  [M+'price.rs',C+'balance.rs'],[("shortest path over prices",M+"price.rs: conversion, Graph::from_prices"),("conversion of balances",C+"balance.rs: convert_balance")],["bal -X output"])
p("C13","The prices report is exactly what the journal states and implies",
  "The prices report has one line per P directive, one per posting with a cost, and one per transaction whose real postings, at their costs, leave a remainder in exactly two commodities and have no omitted amount, and no others. Each line has the entry's date, the commodity and its unit price, rounded for display: the stated price, the unit cost (a total cost divided by the quantity, always positive for buys and sells alike), or the ratio of the two amounts in one of the two directions.",
  ["inputs"],"every journal mixing P lines, unit and total costs of either sign, implicit exchanges and automated transactions",
  "one test counts seven lines",
  [C+'prices.rs',M+'mod.rs',T+'price.rs'],[("price collection",M+"mod.rs: to_ledger, _transaction_to_ledger"),("P directive",T+"price.rs: parse")],["prices output"])
p("C14","Amounts are printed with the right sign, rounded to two decimals",
  "Every amount in every report is the exact value rounded to two decimals, halves away from zero, with exactly two decimals, a minus sign exactly when the printed value is negative (also between -1 and 0, but never on 0.00), and its commodity's name; no digits are lost however large the value.",
  ["inputs"],"every rational value reachable from amounts, costs, sums and conversions",
  "no test reads a printed amount",
  [M+'money.rs'],[("formatting",M+"money.rs: Display for Money")],["amounts in bal, reg and prices"])
p("C15","Layout and equivalent spellings do not change what a journal means",
  "Two journals that differ only in how the same entries are written give the same reports: the amount of white space or tabs between the parts of transaction, posting and price lines, around '@' and '=', within expressions (which may extend over several lines) and at line ends, blank lines and comments between entries, LF or CRLF line ends, a missing final newline, commodity before or after the number, quoting of commodities, the separator and zero-padding in dates, a time of day on transactions and prices, an effective date, and the cleared or pending mark. Names may contain any Unicode letters.",
  ["inputs"],"every journal and every pair of renderings of it",
  "tests use one layout per file",
  ['src/parser/mod.rs','src/parser/chars.rs',T+'transaction.rs',T+'price.rs',T+'commodity.rs','src/grammar/grammar.pest'],[("tokenizer","src/parser/chars.rs"),("postings",T+"transaction.rs: parse_posting, parse_money"),("header grammar","src/grammar/grammar.pest: transaction")],["all reports"])
p("C16","Every input is either read completely or rejected with a failure",
  "On any file content every command terminates, and either succeeds or ends with a non-zero status and a message on standard error with no report on standard output; it is never killed by a signal. All commands give the same verdict on the same file, check printing that it is OK exactly when it succeeds. A posting line that is not completely understood (digits grouped with commas, two amounts, a dangling '@' or '=', a value expression outside an automated transaction, trailing text) is rejected, and so is any other entry that is not: an unknown word at the start of an entry or of an indented line below an account, commodity, payee or tag directive, an indented line below a price or a comment, a price line without its number or with grouped digits, a date that does not exist, an automated posting whose amount or expression is incomplete. No line is ever skipped silently or read as an amount other than the one it states.",
  ["inputs"],"every byte string, in particular every small corruption of a valid journal",
  "a few fixed malformed snippets",
  ['src/parser/mod.rs','src/parser/chars.rs',T+'transaction.rs',T+'tag.rs',T+'account.rs',T+'payee.rs',T+'commodity.rs',C+'check.rs','src/main.rs'],[("tokenizer loop","src/parser/mod.rs: Tokenizer::tokenize"),("error reporting","src/parser/mod.rs: Tokenizer::error"),("exit status","src/main.rs")],["exit status, standard output and error of all commands"])
p("C17","The same command on the same files prints the same output",
  "Running a command again with the same arguments on the same files gives byte-for-byte the same standard output and the same exit status, whatever the number of commodities, accounts, prices, aliases and payee patterns involved. No command writes, changes or removes a file.",
  ["inputs","schedules"],"every journal and command, every iteration order of the internal hash tables",
  "one test repeats one command on one file, with a single target commodity",
  [M+'balance.rs','src/list.rs',M+'price.rs',M+'mod.rs',C+'balance.rs'],[("ordered containers and sorting",M+"balance.rs, src/list.rs, "+M+"price.rs"),("report sorting",C+"balance.rs")],["standard output and exit status of repeated runs"])
p("C18","Aliases and capitalisation name the same thing",
  "Writing an account or commodity by any alias given in its directive, or in other capitals, anywhere a name can be written (postings, costs, assertions, prices, automated postings, expressions and -X), gives the same reports as writing the declared name, and reports always show the declared name. Distinct names stay distinct.",
  ["inputs"],"every journal, set of directives and spelling of each name",
  "two commodity spellings with -X on one file",
  ['src/list.rs',M+'mod.rs',T+'account.rs',T+'commodity.rs'],[("case-insensitive lookup by name or alias","src/list.rs: List"),("resolution of names",M+"mod.rs: to_ledger")],["all reports"])
p("C19","Automated transactions add exactly the postings they describe",
  "For every posting written in a transaction that matches an automated transaction's query, and once for each automated transaction it matches, each of its postings is added to that transaction, with the stated account and kind, the matched posting's payee, and the stated amount, the matched amount times the stated number, or the value of the stated expression for the matched posting; its tag comments are added to the matched posting. Added postings do not match again, other transactions are untouched, and a transaction left unbalanced by them makes the journal fail.",
  ["inputs"],"every combination of transactions and automated transactions",
  "three fixed files, counted by lines",
  [M+'mod.rs',M+'transaction.rs','src/parser/value_expr.rs'],[("application of automated transactions",M+"mod.rs: to_ledger step 5"),("query text",M+"transaction.rs: get_filter_query"),("amount expressions","src/parser/value_expr.rs: eval_value_expression")],["reg and bal output; exit status"])
p("C20","Virtual postings stay out of real accounting, and --real hides exactly them",
  "Postings in parentheses or brackets change neither whether the real postings balance, nor an omitted amount, nor a balance assertion: with --real every report equals the report of the same journal with all virtual postings deleted, and the journal is accepted exactly when that one is and its bracketed postings balance. Without --real they are counted in their accounts like any others.",
  ["inputs"],"every journal with any mix of virtual postings in any position",
  "one file, counted by lines",
  [M+'transaction.rs','src/filter.rs',T+'transaction.rs'],[("separate groups",M+"transaction.rs: Transaction::balance"),("--real filter","src/filter.rs: filter")],["all reports with and without --real"])
p("C21","The listing commands name each thing in the journal exactly once",
  "accounts, payees and commodities print, sorted and without repetition, exactly the accounts, payees and commodities that are declared or used anywhere in the journal (in postings, costs, assertions, prices and automated postings), each under its declared name when it has one, including those that appear only in included files.",
  ["inputs"],"every journal",
  "line counts on one file",
  [C+'accounts.rs',C+'payees.rs',C+'commodities.rs',M+'mod.rs','src/list.rs'],[("collection of names",M+"mod.rs: to_ledger steps 1 and 2"),("listing",C+"accounts.rs, payees.rs, commodities.rs")],["accounts, payees and commodities output"])
p("C22","Tags belong to the posting or to the whole transaction as written",
  "A tag in a comment above the first posting or on the first line of a transaction belongs to every posting of it (also one whose amount is filled in), and a tag in a comment on or below a posting to that posting only. ':a:b:' at the end of a comment gives the tags a and b, 'key: value', with no other colon, gives the tag key with that value, other comments give none; %-queries, has_tag and tag see exactly these.",
  ["inputs"],"every placement of every kind of comment",
  "one file with two tags and five fixed comment strings",
  [M+'comment.rs',T+'transaction.rs',T+'comment.rs',M+'mod.rs',M+'transaction.rs'],[("tag syntax",M+"comment.rs: get_tags"),("placement",T+"transaction.rs: parse_with_grammar"),("tag lookup",M+"transaction.rs: has_tag, get_tag, get_exact_tag")],["reg with tag queries"])
p("C23","Options in the init file act as if given on the command line",
  "Each option line of the init file has the effect of that option on the command line, unless the option is also given on the command line in its short or long form, which then wins; blank lines and lines starting with ; # ! or % have no effect. --init-file takes precedence over the home directory's .ledgerrc, which takes precedence over the current directory's, and only one of them is read.",
  ["inputs","configurations"],"every combination of options between init file and command line and of init file locations",
  "one init file with two flags and two malformed ones",
  ['src/app.rs'],[("init file","src/app.rs: run_app")],["output of bal and reg under equivalent invocations"])
p("C24","Dates mean the same day in journals, on the command line and in expressions",
  "A date written year first with '-' or '/' (or '.' in journals), with or without leading zeros, denotes that calendar day in transaction and price lines, in --begin and --end and in to_date; year-month or a year on the command line is the first day of that month or year. Filters by date select exactly the transactions in the half-open range, an impossible date such as February 30, and in a transaction one with two different separators, is rejected, and reports print dates as YYYY-MM-DD.",
  ["inputs"],"every calendar date and spelling, every range, leap years included",
  "eight fixed dates",
  ['src/app.rs','src/parser/utils.rs','src/grammar/grammar.pest','src/filter.rs'],[("command-line dates","src/app.rs: date_parser"),("journal dates","src/parser/utils.rs: parse_date"),("range filter","src/filter.rs: filter")],["reg output; exit status"])
p("C25","Payee patterns and per-payee accounts are applied",
  "A transaction whose payee text matches a pattern given as alias in a payee directive has that declared payee, in queries, in the payees report and, when the payee is the description, in the register; any other text is its own payee, and text after '|' is the payee instead of the description. A posting to an account ending in Unknown goes to the account whose payee pattern matches the transaction's payee, or stays where written when none does.",
  ["inputs"],"every set of payee and account directives with patterns, and every payee text",
  "one line-count test with one pattern",
  [M+'mod.rs',M+'transaction.rs',M+'payee.rs',T+'payee.rs',T+'account.rs',T+'transaction.rs'],[("payee resolution",M+"mod.rs: to_ledger step 2"),("unknown accounts",M+"mod.rs: _transaction_to_ledger")],["payees, reg and bal output"])
p("C26","Money and balance arithmetic of the library is exact and lawful",
  "For the library's money and balance values, addition is commutative and associative with zero as identity, subtraction undoes addition, negation and multiplication by a number distribute over it, division undoes multiplication, amounts of different commodities never mix, amounts of one commodity are ordered as numbers, and a balance is zero, can be zero by exchange, or is convertible to a single amount, exactly when its non-zero commodities say so. Equality of balances is an equivalence: it ignores zero entries and nothing else. Printing respects the commodity's precision.",
  ["inputs","histories"],"all rational amounts, all commodities and precisions, all sequences of operations",
  "one documentation example",
  [M+'money.rs',M+'balance.rs',M+'currency.rs'],[("operators",M+"money.rs, "+M+"balance.rs")],["public API of the dinero library: Money, Balance, Currency"])
p("C27","A library list resolves names and aliases like a case-insensitive map",
  "After any sequence of insertions, aliases, merges, copies and lookups, looking up a name or an alias in any capitals gives the element inserted first under that name, or else the one element that has the alias, unknown names give an error, the counts are the numbers of distinct elements and of elements plus aliases, and a lookup by regular expression finds an element exactly when the expression matches the name of an element or, in lower case, an alias, at the time of the call. Adding an alias that already exists panics and changes nothing else.",
  ["inputs","histories"],"all sequences of operations and names",
  "two short unit tests",
  ['src/list.rs'],[("list operations","src/list.rs: List")],["public API of the dinero library: List"],
  [("regular expression cache","results of earlier regular expression lookups","src/list.rs: List.matches")])
p("C28","Currency conversion rates of the library are right for any date",
  "For any set of prices, target commodity and date, the conversion rates given by the library cover exactly the commodities connected to the target by prices dated on or before that date; each rate is the exact product, with inversions, of most recent prices along a path of least elapsed time, so rates of commodities with a single chain of prices are unique, repeated calls agree, and converting there and back along it gives 1.",
  ["inputs"],"all price sets, targets and dates",
  "one test with three prices at today's date",
  [M+'price.rs'],[("shortest path",M+"price.rs: conversion"),("price graph",M+"price.rs: Graph::from_prices")],["public API of the dinero library: conversion, Price"])
p("C29","An error message says where the error is",
  "When a posting line, the first word of an entry or a line of an account or commodity directive cannot be read, the message on standard error names the file it is in, also when that is an included one, and its line number, and shows the line. When a transaction does not balance, omits too many amounts or has a balance assertion that is not met, the message shows its date and description, its accounts, and for an assertion the stated and the actual amount.",
  ["inputs"],"every position of an error in every journal, over any files",
  "error messages are not tested",
  ['src/parser/mod.rs','src/parser/chars.rs',T+'transaction.rs',M+'mod.rs',M+'transaction.rs','src/error.rs'],[("message","src/parser/mod.rs: Tokenizer::error"),("line count","src/parser/chars.rs"),("transaction shown",M+"transaction.rs: Display for Transaction")],["standard error"],
  [("current line","number of the line being read","src/parser/mod.rs: Tokenizer.line_index")])
p("C30","Equivalent command lines give the same output",
  "A command gives the same output and exit status when it is named by its alias (bal, reg, currencies), when options are written in their short, long, joined or = form, when the journal is named by another path to the same file (which check repeats as given), and when the options are in another order or after the query.",
  ["inputs"],"every command with every combination of options, values and queries",
  "each test uses one spelling",
  ['src/app.rs'],[("options","src/app.rs: CommonOpts, Command")],["command line and standard output"])
p("C31","Colours change nothing but the colours",
  "When standard output is not a terminal, reports contain no escape sequences. With --force-color the output without its escape sequences is byte for byte the plain output, and in a balance report the negative amounts are coloured and the others are not.",
  ["inputs"],"every report of every journal",
  "two command tests check that it runs",
  ["src/commands/balance.rs","src/commands/register.rs","src/app.rs"],[("colouring","src/commands/balance.rs, src/commands/register.rs")],["standard output"])
p("C32","The library reads every part of a journal exactly as it is written",
  "For every well-formed journal, given as a text or as files that include others, the library's tokenizer returns its transactions in the order written, each with its date, effective date, description, payee, comments and their tags, and its postings in order with their account, kind (real, in parentheses, in brackets), exact amount and commodity, cost (per unit or total), asserted balance and comments, or the fact that the amount is an expression; and the accounts, commodities and payees with their aliases, tags with their checks and assertions, comments and prices, nothing more and nothing twice. The ledger made from it resolves every name and holds every stated price exactly.",
  ["inputs"],"all well-formed journals in all layouts, over any files",
  "unit tests count items of short texts and look at few fields",
  ['src/parser/mod.rs','src/parser/include.rs',T+'transaction.rs',T+'account.rs',T+'commodity.rs',T+'payee.rs',T+'tag.rs',T+'price.rs',T+'comment.rs',M+'comment.rs'],[("reading","src/parser/mod.rs: Tokenizer::tokenize"),("merging of included files","src/parser/mod.rs: ParsedLedger::append"),("transactions and postings",T+"transaction.rs"),("tags of comments",M+"comment.rs: Comment::get_tags")],["public API of the dinero library: Tokenizer, ParsedLedger"])
p("C33","On a terminal the reports are the same, fitted to its width",
  "On a terminal of any width every report has the text it has when written to a pipe. Only a register on more than 95 columns is laid out anew: the same lines, whose account column takes the additional columns and whose amounts and balances are right-aligned in 21 columns each, so that a line is exactly as wide as the terminal when its texts fit. With NO_COLOR a terminal gets no escape sequences; without it they are the only other difference.",
  ["inputs","configurations"],"every report of every journal and every width of the terminal",
  "tests have no terminal",
  ["src/commands/register.rs","src/commands/balance.rs"],[("columns","src/commands/register.rs: execute")],["standard output"])
p("C34","A report that cannot be written completely is not a success",
  "When standard output does not take the whole report (a full device, a pipe nobody reads, a limit on the size of the file, or any single write that fails), the program ends with a failure, and what it wrote until then is the beginning of the report. When everything can be written, even if writes are interrupted or accept only a part at a time, it succeeds with the same bytes as ever.",
  ["inputs","fault_sequences"],"every report, and every fault at every write of it",
  "tests read the whole output",
  ["src/commands/register.rs","src/commands/balance.rs","src/commands/accounts.rs","src/commands/payees.rs","src/commands/commodities.rs","src/commands/prices.rs","src/commands/check.rs","src/main.rs"],[("writing","src/commands/*.rs: execute")],["standard output, exit status"])
p("C35","A journal that cannot be read completely is not a success",
  "When a file of the journal, or a configuration file that exists, cannot be opened, a read of it fails or it is not UTF-8, or when a directory that a wildcard of an include line searches cannot be listed, every command ends with a failure and prints nothing on standard output. Reads that are interrupted or return only a part change nothing.",
  ["inputs","fault_sequences"],"all journals over any files, and every fault at every access to them",
  "tests read files that can be read",
  ["src/parser/mod.rs","src/parser/include.rs","src/app.rs"],[("reading of files","src/parser/mod.rs: Tokenizer::from"),("included files","src/parser/include.rs: parse"),("configuration","src/app.rs: run_app")],["standard output, exit status"])
p("C36","Reports depend on nothing but the arguments, the files and the date",
  "Standard output and exit status are decided by the arguments, the contents of the files that are read and, with -X only, the current date in UTC (dates relative to today, such as --begin yesterday, aside). They are the same whatever the environment variables (other than HOME, where it names a configuration file, and those about colours), the time of day and time zone, the directory the program is started in (the path of the journal being written accordingly), the name it is started by, its standard input and umask, and other instances running at the same time. Nor does it matter whether the journal is a plain file, a link, read-only, old or new, or comes through a pipe as /dev/stdin.",
  ["inputs","configurations","schedules"],"all journals, reports and surroundings",
  "tests run in one environment, at one time, one program after the other",
  ["src/app.rs","src/main.rs","src/commands/balance.rs","src/parser/mod.rs","src/parser/include.rs"],[("options","src/app.rs: run_app"),("date of valuation","src/commands/balance.rs: execute"),("reading of files","src/parser/mod.rs: Tokenizer::from")],["standard output, exit status"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
