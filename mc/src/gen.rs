//! Text generators shared by several properties: directives with all combinations of optional parts.

use crate::{common::*, engine::*};

pub const FLAGS: [&str; 9] = ["*", "!", "txn", "&", "#", "?", "%", "'X", "'A"];
pub const STRINGS: [&str; 8] = ["", " \"n\"", " \"p\" \"n\"", " \"\" \"n\"", " \"p\" \"\"", " \"\"", " \"a \\\"q\\\" \\\\ b\"", " \"é日\" \"x\ny\""];
pub const TAGLINKS: [&str; 7] = ["", " #t", " ^l", " #t ^l", " ^l #t #u", " #A-1_b/c.d ^A-1_b/c.d ^m", " #t ^t"];
pub const VALUES: [&str; 26] = [
    "", "\"s\"", "\"\"", "\"a\\\"b\\\\\"", "USD", "/X", "Assets:A", "Expenses:日本:X1", "#t", "^l", "2024-12-31", "TRUE", "FALSE", "NULL", "1", "-1.50", "1 USD", "-1,000.00 A'B",
    "1+2*3", "(1+2)*3", "-(1.5) USD", "10/4 GBP", "0.00", "1 / 3", "1.10 - -2", "+5",
];
pub const METALINES: [&str; 14] = [
    "", "  kk: \"v\"\n", "  key2: 1 USD\n", "  open:\n", "  #m\n", "  ^n\n", "  a-b_C1: Assets:A\n", "  kk: NULL\n  key2: TRUE\n", "  #m\n  ^n\n  #o\n", "  kk: 2024-01-01\n  #m\n",
    "  ^n\n  kk: #t\n", "  kk: ^l\n  key2: USD\n  key3: 1+1\n", "  payee: \"x\"\n  note: \"é\"\n", "  kk: -5 USD\n",
];
pub const AMOUNTS: [&str; 9] = ["", " 1 USD", " -1.50 USD", " 1", " USD", " 1+2*3 USD", " (1-2)/3", " 1,234.5600 A.B-C", " +7 GOOG"];
pub const COSTS: [&str; 22] = [
    "", " {}", " {1}", " {1 USD}", " {# 2}", " {# 2 USD}", " {1 # 2}", " {1 # 2 USD}", " {USD}", " {2024-02-29}", " {\"lab\"}", " {*}", " {1 USD, 2024-02-29}", " {1 USD, 2024-02-29, \"lab\"}",
    " {1 USD, 2024-02-29, \"lab\", *}", " {\"lab\", 1 USD}", " {*, 2024-02-29, 1}", " {1, USD}", " {# USD}", " {\"a\\\"b\\\\\"}", " {1+1 # 2*2 USD, *}", " {1 # USD}",
];
pub const PRICES: [&str; 12] = ["", " @", " @@", " @ 3", " @@ 3", " @ USD", " @@ USD", " @ 3 USD", " @@ 3 USD", " @ 1+2 USD", " @@ -(4) USD", " @ 0.5"];
pub const POSTMETA: [&str; 7] = ["", "    kk: 1\n", "    #pt\n", "    ^pl\n", "    kk: \"v\"\n    #pt\n    ^pl\n", "    open: 5 USD\n", "    kk:\n    m2: Assets:A\n"];
pub const ACCOUNTS: [&str; 8] = ["Assets:A", "Liabilities:L:M", "Equity:Opening-Balances", "Income:I:1:2", "Expenses:E", "Assets:日本", "Assets:É", "Assets:A1-b"];

/// arguments of every directive but transactions: (keyword, argument forms)
pub fn args() -> Vec<(&'static str, Vec<&'static str>)> {
    vec![
        ("price", vec!["USD 1 GBP", "A.B 1.50 USD", "USD -1 GBP", "USD 1/3 GBP", "X (1+2)*0.5 Y"]),
        ("balance", vec!["Assets:A 1 USD", "Assets:A 1 ~ 0.1 USD", "Assets:A -1.50 USD", "Assets:A 1+2*3 ~ 2 USD", "Income:X 0 USD"]),
        ("open", vec!["Assets:A", "Assets:A USD", "Assets:A USD,GBP", "Assets:A \"FIFO\"", "Assets:A USD \"STRICT\"", "Assets:A USD,GBP,EUR \"STRICT_WITH_SIZE\"", "Equity:E \"NONE\"", "Assets:A \"LIFO\"", "Assets:A \"HIFO\"", "Assets:A \"AVERAGE\""]),
        ("close", vec!["Assets:A", "Expenses:日本"]),
        ("commodity", vec!["USD", "/ESM24", "A'B.C-D_1"]),
        ("pad", vec!["Assets:A Equity:B", "Liabilities:A Assets:A"]),
        ("document", vec!["Assets:A \"p/q.pdf\"", "Assets:A \"\"", "Income:A \"a\\\"\\\\b\""]),
        ("note", vec!["Assets:A \"c\"", "Assets:A \"x\ny\"", "Assets:A \"\\\"\""]),
        ("event", vec!["\"t\" \"d\"", "\"\" \"\"", "\"a\\\\b\" \"é\""]),
        ("query", vec!["\"n\" \"SELECT x\"", "\"\" \"\\\"\"", "\"é\" \"x\n\ny\""]),
        ("custom", vec!["\"t\"", "\"t\" 1", "\"t\" 1 USD \"s\"", "\"t\" USD Assets:A #t ^l", "\"t\" TRUE FALSE NULL 2024-01-01", "\"q\\\"\" \"s\" 1+1 2 USD", "\"t\" 1 -1"]),
    ]
}

pub fn headers() -> Vec<String> {
    let mut v = vec![];
    for (k, forms) in args() {
        for f in forms {
            v.push(format!("2024-01-02 {} {}", k, f));
        }
    }
    v
}

pub fn txn_headers(flags: &[&str]) -> Vec<String> {
    cross(&[flags.iter().map(|f| format!("2024-01-02 {}", f)).collect(), strs(&STRINGS)])
}

/// all kinds of directive but transactions x inline tags/links x metadata lines
pub fn simple_directives(name: &str, check: Check) -> Family {
    grid_family_(name, "every directive form x inline tags and links x metadata lines", vec![headers(), strs(&TAGLINKS), strs(&["\n"]), strs(&METALINES)], check)
}

pub fn transactions(name: &str, check: Check) -> Family {
    grid_family_(
        name,
        "transaction headers x tags/links x metadata x postings",
        vec![txn_headers(&FLAGS), strs(&TAGLINKS), strs(&["\n"]), strs(&METALINES), strs(&["", "  Assets:A 1 USD\n", "  ! Assets:A\n  Income:B -1 USD\n    kk: 1\n"])],
        check,
    )
}

pub fn postings(name: &str, check: Check) -> Family {
    grid_family_(
        name,
        "posting flags x accounts x amounts x costs x prices x posting metadata",
        vec![
            strs(&["2024-01-02 * \"n\" #t\n  kk: \"v\"\n  "]),
            strs(&["", "! ", "* ", "# ", "'X "]),
            strs(&["Assets:A", "Expenses:日本:1-a"]),
            strs(&AMOUNTS),
            strs(&COSTS),
            strs(&PRICES),
            strs(&["\n"]),
            strs(&POSTMETA),
        ],
        check,
    )
}

pub const BODY: [&str; 16] = [
    "  Assets:A 1 USD\n", "  ! Income:B -1 USD\n", "  Assets:A\n", "  Assets:C 5 GOOG {1 USD, \"l\"} @ 2 USD\n", "    kk: 1\n", "  kk: \"v\"\n", "  m2: Assets:Z\n", "  #t\n", "    #t\n", "  ^l\n", "    ^l\n", "  * Assets:D 1\n",
    "\n", "  ; c\n", "  open: TRUE\n", "  # Assets:D 2 USD @@ 4 GBP\n",
];

/// sequences of body lines of a transaction
pub fn bodies(name: &str, n: u32, check: Check) -> Family {
    words_family(name, "lines under a transaction", &[("2024-01-02 * \"p\" \"n\" #h ^h\n", ""), ("2024-01-02 txn #t\n", "2024-01-03 close Assets:A\n")], &BODY, n, "", check)
}

/// metadata values of every type on every owner
pub fn metavalues(name: &str, check: Check) -> Family {
    grid_family_(
        name,
        "owners x keys x values x following line",
        vec![
            strs(&["2024-01-02 close Assets:A\n  ", "2024-01-02 *\n  ", "2024-01-02 *\n  Assets:A 1 USD\n    ", "2024-01-02 custom \"x\" 1\n  z9: 1\n  "]),
            strs(&["k1: ", "open: ", "a-b_C: ", "txn: ", "include:  ", "kk:"]),
            strs(&VALUES),
            strs(&["\n", "\n  other: 1\n", " ; c\n\n"]),
        ],
        check,
    )
}

/// custom values
pub fn customs(name: &str, n: u32, check: Check) -> Family {
    words_family(
        name,
        "values of a custom directive",
        &[("2024-01-02 custom \"t\" ", "\n"), ("2024-01-02 custom \"t\" ", "\n  kk: 1\n  #x\n")],
        &["\"s\"", "USD", "Assets:A", "#t", "^l", "2024-12-31", "TRUE", "NULL", "1", "-1.5", "1 USD", "(1+2)*3", "/X", "10 / 2 GBP"],
        n,
        " ",
        check,
    )
}

/// cost specifications of up to n different parts in every order, with and without amount and price
pub fn cost_parts(name: &str, n: usize, check: Check) -> Family {
    let parts = ["1", "USD", "1 USD", "# 2", "# 2 USD", "1 # 2", "1 # 2 USD", "2024-01-01", "\"l\"", "*"];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut at = 0;
    while at < lists.len() {
        if lists[at].len() < n {
            for k in 0..parts.len() {
                if !lists[at].contains(&k) {
                    let mut l = lists[at].clone();
                    l.push(k);
                    lists.push(l);
                }
            }
        }
        at += 1;
    }
    let costs: Vec<String> = lists.iter().map(|l| format!(" {{{}}}", l.iter().map(|k| parts[*k]).collect::<Vec<_>>().join(", "))).collect();
    grid_family_(name, &format!("cost specifications of up to {} of the parts {:?} in every order x amounts x prices", n, parts), vec![strs(&["2024-01-02 * \"n\"\n  Assets:A"]), strs(&["", " 1 X", " 1"]), costs, strs(&["", " @", " @@ 1 USD"]), strs(&["\n"])], check)
}
