//! C05 (arithmetic) and C15 (literals).

use crate::{common::*, engine::*, refm::E};

/// every position of a declaration that takes an expression
pub const POSITIONS: [(&str, &str); 16] = [
    ("2024-01-02 price USD ", " GBP\n"),
    ("2024-01-02 balance Assets:A ", " USD\n"),
    ("2024-01-02 balance Assets:A ", " ~ 0.5 USD\n"),
    ("2024-01-02 *\n  Assets:A ", " USD\n"),
    ("2024-01-02 *\n  Assets:A ", "\n"),
    ("2024-01-02 *\n  Assets:A 1 X {", " USD}\n"),
    ("2024-01-02 *\n  Assets:A 1 X {", "}\n"),
    ("2024-01-02 *\n  Assets:A 1 X {# ", " USD}\n"),
    ("2024-01-02 *\n  Assets:A 1 X {2 # ", " USD}\n"),
    ("2024-01-02 *\n  Assets:A 1 X @ ", " USD\n"),
    ("2024-01-02 *\n  Assets:A 1 X @@ ", " USD\n"),
    ("2024-01-02 *\n  Assets:A 1 X @@ ", "\n"),
    ("2024-01-02 *\n  Assets:A\n    k1: ", "\n"),
    ("2024-01-02 close Assets:A\n  k1: ", " USD\n"),
    ("2024-01-02 custom \"x\" ", " \"y\"\n"),
    ("pushmeta k1: ", " USD\n2024-01-02 close Assets:A\npopmeta k1:\n"),
];

const OPS: [&str; 4] = ["+", "-", "*", "/"];

/// all fully parenthesised trees with n operators
fn trees(n: usize, lits: &[&str], neg: bool) -> Vec<String> {
    if n == 0 {
        let mut v: Vec<String> = strs(lits);
        if neg {
            v.extend(lits.iter().map(|l| format!("-{}", l)));
        }
        return v;
    }
    let mut v = vec![];
    for l in 0..n {
        let a = trees(l, lits, neg);
        let b = trees(n - 1 - l, lits, neg);
        for x in &a {
            for y in &b {
                for o in OPS {
                    let x = if l > 0 { format!("({})", x) } else { x.clone() };
                    let y = if n - 1 - l > 0 { format!("({})", y) } else { y.clone() };
                    v.push(format!("{} {} {}", x, o, y));
                }
            }
        }
    }
    v
}

/// a tree built by the user, which may be one that cannot be written without parentheses
fn built(e: &E) -> beancount_parser_lima::Expr {
    use beancount_parser_lima::Expr as X;
    let b = |e: &E| Box::new(built(e));
    match e {
        E::V(d) => X::Value(*d),
        E::Bin('+', x, y) => X::Add(b(x), b(y)),
        E::Bin('-', x, y) => X::Sub(b(x), b(y)),
        E::Bin('*', x, y) => X::Mul(b(x), b(y)),
        E::Bin(_, x, y) => X::Div(b(x), b(y)),
        E::Neg(x) => X::Neg(b(x)),
        E::Par(x) => X::Paren(b(x)),
    }
}

fn grown(n: usize, lits: &[&str]) -> Vec<E> {
    if n == 0 {
        return lits.iter().map(|l| E::V(crate::refm::parse_dec(l).unwrap())).collect();
    }
    let mut v = vec![];
    for x in grown(n - 1, lits) {
        v.push(E::Neg(Box::new(x.clone())));
        v.push(E::Par(Box::new(x)));
    }
    for l in 0..n {
        let (a, b) = (grown(l, lits), grown(n - 1 - l, lits));
        for x in &a {
            for y in &b {
                for o in ['+', '-', '*', '/'] {
                    v.push(E::Bin(o, Box::new(x.clone()), Box::new(y.clone())));
                }
            }
        }
    }
    v
}

fn grown_family(n: usize, lits: &[&str]) -> Family {
    let all = grown(n, lits);
    family(&format!("built-{}", n), format!("all expression trees with {} operators, signs or parentheses over {:?}, built through the API and evaluated", n, lits), all.len() as u64, move |i, ctx| {
        let e = &all[i as usize];
        let x = built(e);
        ctx.trace(1);
        ctx.state(&e.s());
        let got = guarded(|| {
            let v = beancount_parser_lima::ExprValue::from(x.clone());
            (v.value(), v.expr() == &x, v.clone() == v)
        });
        match (e.value(), got) {
            // it has no value, which is documented to panic
            (None, Err(_)) => ctx.outcome("no value"),
            (Some(w), Ok((g, true, true))) if w == g && w.scale() == g.scale() => ctx.outcome("value"),
            (w, g) => return Err(format!("{} evaluates to {:?}, expected {:?}", e.s(), g, w)),
        }
        Ok(())
    })
}

pub fn c05(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for n in 0..=2 {
        v.push(grown_family(n, &["7", "0.5", "1.25", "0", "-3", "0.00"]));
    }
    v.push(grown_family(3, t.pick(&["7", "0.25"], &["7", "0.5", "1.25", "-3"])));
    let price = &POSITIONS[..1];
    v.push(words_family("tokens", "arithmetic token sequences", price, &["1", "2.5", "0.33", "0", "-", "+", "*", "/", "(", ")"], t.pick(5, 7), " ", agree));
    v.push(words_family("tokens-tight", "arithmetic token sequences without spaces", price, &["7", "0.5", "1,000", "-", "+", "*", "/", "(", ")"], t.pick(5, 6), "", agree));
    // flat chains: precedence and associativity
    let lits = ["2", "0.5", "3.25", "7"];
    for n in 2..=t.pick(4usize, 5) {
        let mut slots: Vec<Vec<String>> = vec![strs(&["2024-01-02 price USD ", "2024-01-02 price USD -"])];
        for i in 0..=n {
            if i > 0 {
                slots.push(strs(&[" + ", " - ", " * ", " / "]));
            }
            slots.push(strs(&lits[..t.pick(if n > 3 { 2 } else { 3 }, 3)]));
        }
        slots.push(strs(&[" GBP\n"]));
        v.push(grid_family_(&format!("flat-{}", n), "unparenthesised chains", slots, agree));
    }
    v.push(texts_family("trees", "all fully parenthesised trees with 0..=2 operators over signed literals", (0..=2).flat_map(|n| trees(n, &["7", "0.5", "1.25", "0", "3"], true)).map(|e| format!("2024-01-02 price USD {} GBP\n", e)).collect(), agree));
    v.push(texts_family("trees-3", "all fully parenthesised trees with 3 operators", trees(3, t.pick(&["7", "0.5", "1.25"][..], &["7", "0.5", "1.25", "0", "-3"][..]), false).into_iter().map(|e| format!("2024-01-02 price USD {} GBP\n", e)).collect(), agree));
    if t == Tier::Thorough {
        v.push(texts_family("trees-4", "all fully parenthesised trees with 4 operators", trees(4, &["7", "0.5"], false).into_iter().map(|e| format!("2024-01-02 price USD {} GBP\n", e)).collect(), agree));
    }
    // rounding and range: every pair of numbers under every operator
    let nums = [
        "0", "0.00", "1", "2", "3", "6", "7", "0.5", "0.05", "0.15", "0.25", "0.35", "1.005", "2.675", "10.00", "99.99", "1,000", "1,234,567.891", "0.001", "123456789.123456789", "9999999999999999999999999999", "0.0000000000000000000000000001",
        "79228162514264337593543950335", "39614081257132168796771975168", "7922816251426433759354395033.5", "0.3333333333333333333333333333", "33.333333",
    ];
    let signed: Vec<String> = nums.iter().flat_map(|n| [n.to_string(), format!("-{}", n)]).collect();
    v.push(grid_family_("rounding", "pairs of numbers under each operator", vec![strs(&["2024-01-02 price USD "]), signed.clone(), strs(&[" + ", " - ", " * ", " / "]), signed.clone(), strs(&[" GBP\n"])], agree));
    v.push(grid_family_("rounding-chain", "quotients and products continued", vec![strs(&["2024-01-02 price USD "]), strs(&nums), strs(&[" / 3 ", " / 7 ", " / 8.0 ", " * 0.15 ", " * 1.005 ", " / 0.003 "]), strs(&["+ ", "- ", "* ", "/ "]), strs(&nums), strs(&[" GBP\n"])], agree));
    // long chains and deep nesting
    let mut texts = vec![];
    for n in 1..=t.pick(40usize, 120) {
        for (a, b) in [("+", "+"), ("-", "-"), ("*", "*"), ("/", "/"), ("+", "-"), ("-", "*"), ("*", "/"), ("/", "-"), ("*", "+")] {
            for (x, y) in [("1", "2"), ("1.5", "0.25"), ("2", "1")] {
                let term = |k: usize| format!(" {} {}", if k % 2 == 0 { a } else { b }, if k % 2 == 0 { y } else { x });
                texts.push(format!("2024-01-02 price USD {}{} GBP\n", x, (0..n).map(term).collect::<String>()));
                texts.push(format!("2024-01-02 price USD {}{}{} GBP\n", "(".repeat(n), x, (0..n).map(|k| format!("{})", term(k))).collect::<String>()));
                texts.push(format!("2024-01-02 price USD {}{}{} GBP\n", (0..n).map(|k| format!("{} {} (", if k % 2 == 0 { x } else { y }, if k % 2 == 0 { a } else { b })).collect::<String>(), x, ")".repeat(n)));
            }
        }
        texts.push(format!("2024-01-02 price USD {}1.5{} GBP\n", "-(".repeat(n), ")".repeat(n)));
        texts.push(format!("2024-01-02 price USD {}1.5{} GBP\n", "(-".repeat(n), ")".repeat(n)));
        texts.push(format!("2024-01-02 price USD {}0.50{} GBP\n", "(".repeat(n), ")".repeat(n)));
    }
    for n in sizes(t, t.pick(40, 120)).into_iter().filter(|n| *n > t.pick(40, 120)) {
        for (a, x, y) in [("+", "1", "0.25"), ("-", "1", "0.1"), ("*", "1", "1"), ("/", "2", "1"), ("+", "0.001", "-1")] {
            texts.push(format!("2024-01-02 price USD {}{} GBP\n", x, format!(" {} {}", a, y).repeat(n)));
        }
    }
    v.push(texts_family("long", format!("chains of 1..={} (flat: up to 1100) operators, flat and nested to the left and right, and nested signs", t.pick(40, 120)), texts, agree));
    // signs and parentheses around a number, in every order
    let mut texts = vec![];
    for i in 0..words_count(3, t.pick(7, 9)) {
        let w: String = word(i, 3).iter().map(|d| ["(", "-", "+"][*d]).collect();
        let n = w.matches('(').count();
        texts.push(format!("2024-01-02 price USD {}1.5{} GBP\n", w, ")".repeat(n)));
        texts.push(format!("2024-01-02 price USD 2 * {}1.5{} GBP\n", w, " - 1)".repeat(n)));
        texts.push(format!("2024-01-02 price USD {}1.5 / 0.5{} + 1 GBP\n", w, ")".repeat(n)));
    }
    v.push(texts_family("nested signs", "every sequence of up to seven signs and opening parentheses before a number, closed after it, alone or in a sum or product", texts, agree));
    // scales: every pair of numbers of decimals under each operator
    let mut texts = vec![];
    for i in 0..=12usize {
        for j in 0..=12usize {
            for o in OPS {
                for (x, y) in [("1", "3"), ("9", "7"), ("5", "5"), ("0", "6"), ("2", "4")] {
                    let lit = |d: &str, k: usize| if k == 0 { d.to_string() } else { format!("{}.{}", d, d.repeat(k)) };
                    texts.push(format!("2024-01-02 price USD {} {} {} GBP\n", lit(x, i), o, lit(y, j)));
                    texts.push(format!("2024-01-02 price USD -{} {} ({}) GBP\n", lit(x, i), o, lit(y, j)));
                }
            }
        }
    }
    v.push(texts_family("scales", "literals of 0..=12 and 0..=12 decimals under each operator, several digits", texts, agree));
    // the same expressions in every position
    let mut exprs: Vec<String> = signed;
    for a in ["1", "2.50", "0"] {
        for o in ["+", " - ", "*", " / "] {
            for b in ["3", "-0.4", "0.0"] {
                exprs.push(format!("{}{}{}", a, o, b));
                exprs.push(format!("({}{}{})", a, o, b));
                exprs.push(format!("-({}{}{})*2", a, o, b));
                exprs.push(format!("8.0/{}{}{}", a, o, b));
            }
        }
    }
    exprs.extend(strs(&["+1", "+(2)", "((1))", "-(-1)", "1 - -1", "1 -1", "1-1", "1 + +2", "2 * -3", "2 / -4.0", "(1+2)*(3-4)", "--1", "1 2", "(1", "1)", "()", "1+", "*1", "1//2", "- 1", "1. 5", ".5", "1.", "(-1.5)", "1/0", "1/(2-2)", "0/0", "5 % 2"]));
    let pos: Vec<(String, String)> = POSITIONS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let mut texts = vec![];
    for (a, b) in &pos {
        for e in &exprs {
            texts.push(format!("{}{}{}", a, e, b));
        }
    }
    v.push(texts_family("positions", format!("{} expressions in each of {} positions", exprs.len(), pos.len()), texts, agree));
    v.push(words_family("position-words", "token sequences in every position", &POSITIONS, &["1", "0.50", "-", "+", "*", "/", "(", ")"], t.pick(4, 5), " ", agree));
    v
}

pub fn c15(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // dates
    let two = |n: usize| -> Vec<String> { (0..n).map(|i| format!("{:02}", i)).collect() };
    let years: Vec<String> = match t {
        Tier::Quick => [0, 1, 4, 99, 100, 400, 999, 1000, 1582, 1752, 1899, 1900, 1904, 1970, 1999, 2000, 2023, 2024, 2038, 2096, 2100, 2400, 8888, 9996, 9999].iter().map(|y| format!("{:04}", y)).collect(),
        Tier::Thorough => (0..10000).map(|y| format!("{:04}", y)).collect(),
    };
    v.push(grid_family_("dates", "years x months 00..=13 x days 00..=32 with either separator", vec![years.clone(), strs(&["-", "/"]), two(14), strs(&["-", "/"]), two(33), strs(&[" close Assets:A\n"])], agree));
    let all: Vec<String> = (0..10000).map(|y| format!("{:04}", y)).collect();
    v.push(grid_family_("month-ends", "every year x the days around each month's end and the calendar's edge", vec![all, strs(&["-02-28", "-02-29", "-02-30", "-12-31", "-01-01", "-04-31", "-00-10", "-13-01"]), strs(&[" close Assets:A\n"])], agree));
    v.push(grid_family_(
        "date-positions",
        "dates in a cost, as metadata, as custom value, as pushed metadata",
        vec![
            strs(&["2024-01-02 *\n  Assets:A 1 X {", "2024-01-02 *\n  Assets:A 1 X {1 USD, ", "2024-01-02 custom \"x\" ", "2024-01-02 custom \"x\" 1 ", "2024-01-02 close Assets:A\n  kk: ", "pushmeta kk: "]),
            strs(&["1900", "2000", "2023", "2024"]),
            strs(&["-", "/"]),
            two(14),
            strs(&["-"]),
            two(33),
            strs(&["}\n", "\n", "\n2024-01-01 close Assets:A\npopmeta kk:\n"]),
        ],
        agree,
    ));
    v.push(words_family("date-shapes", "digits and separators around a date", &[("", " close Assets:A\n"), ("2024-01-0", " close Assets:A\n"), ("2024", "-02 close Assets:A\n")], &["2024", "0", "1", "12", "-", "/", " "], t.pick(5, 6), "", agree));
    // numbers
    let num = &[("2024-01-02 price USD ", " GBP\n"), ("2024-01-02 custom \"x\" ", "\n")];
    v.push(words_family("number-shapes", "digits, separators and points", num, &["0", "1", "9", ",", ".", "000", "12"], t.pick(5, 7), "", agree));
    let mut lens = vec![];
    for n in 1..=31usize {
        for d in 0..=n {
            for pat in ["1", "9", "10", "05", "123456789", "79228162514264337593543950335", "79228162514264337593543950336", "4"] {
                let digs: String = pat.chars().cycle().take(n).collect();
                let s = if d == 0 {
                    digs.clone()
                } else if d == n {
                    format!("0.{}", digs)
                } else {
                    format!("{}.{}", &digs[..n - d], &digs[n - d..])
                };
                lens.push(format!("2024-01-02 price USD {} GBP\n", s));
                lens.push(format!("2024-01-02 price USD -{} GBP\n", s));
                if n - d > 3 {
                    // thousands separators
                    let (i, f) = digs.split_at(n - d);
                    let mut o = String::new();
                    for (k, c) in i.chars().enumerate() {
                        if k > 0 && (i.len() - k) % 3 == 0 {
                            o.push(',');
                        }
                        o.push(c);
                    }
                    lens.push(format!("2024-01-02 price USD {}{}{} GBP\n", o, if f.is_empty() { "" } else { "." }, f));
                }
            }
        }
    }
    v.push(texts_family("number-lengths", "numbers of 1..=31 digits x every position of the point x 8 digit patterns x sign/separators", lens, agree));
    let mut pos = vec![];
    for (a, b) in POSITIONS.iter().chain(&[("2024-01-02 balance Assets:A 1 ~ ", " USD\n")]) {
        for n in ["0", "00", "007", "1.0", "1.50", "0.000", "1,000", "1,000.00", "12,345,678.9", "1,00", "1,0000", "10,000", "100,000", "1000,000", "9999999999999999999999999999", "0.0000000000000000000000000001", "1.", ".1", "1,000,", "1e5", "0x1", "1_000"] {
            pos.push(format!("{}{}{}", a, n, b));
        }
    }
    v.push(texts_family("number-positions", "number literals in every position", pos, agree));
    // strings
    let esc = [
        "\\n", "\\t", "\\r", "\\b", "\\f", "\\\\", "\\\"", "\\'", "\\/", "\\x41", "\\xe9", "\\u0041", "\\u00e9", "\\u{41}", "\\u{1F600}", "\\101", "\\7", "\\0", "\\q", "\\xZZ", "\\u{}", "\\uD800", "\\u{110000}", "\\ ", "a", "é", "日", "\n", "\r\n", " ", "1", "'", ";", "#", "\u{85}",
    ];
    v.push(words_family("string-escapes", "escapes and characters in a string", &[("2024-01-02 note Assets:A \"", "\"\n"), ("2024-01-02 *  \"", "\" \"z\"\n"), ("2024-01-02 custom \"", "\"\n")], &esc, t.pick(3, 4), "", agree));
    let owners = [
        ("2024-01-02 * \"", "\"\n"), ("2024-01-02 * \"p\" \"", "\"\n"), ("2024-01-02 document Assets:A \"", "\"\n"), ("2024-01-02 event \"", "\" \"d\"\n"), ("2024-01-02 event \"t\" \"", "\"\n"), ("2024-01-02 query \"", "\" \"q\"\n"),
        ("2024-01-02 query \"n\" \"", "\"\n"), ("2024-01-02 custom \"t\" \"", "\"\n"), ("2024-01-02 *\n  kk: \"", "\"\n"), ("2024-01-02 *\n  Assets:A\n    kk: \"", "\"\n"), ("2024-01-02 *\n  Assets:A 1 X {\"", "\"}\n"),
        ("option \"title\" \"", "\"\n"), ("plugin \"", "\"\n"), ("plugin \"m\" \"", "\"\n"), ("pushmeta kk: \"", "\"\n2024-01-01 close Assets:A\npopmeta kk:\n"), ("option \"", "\" \"x\"\n"),
    ];
    let mut long = vec![];
    let mut ns = sizes(Tier::Thorough, 40);
    ns.extend([2047, 2048, 3000, 5001, 8191, 8192, 8193, 10000, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000]);
    for n in ns {
        for pat in ["a", "é", "日b", "\\n", "a\n"] {
            if pat.contains('\n') && n > 60 || pat != "a" && n > 8200 {
                continue; // warned about, see C17
            }
            let body: String = pat.repeat(n.div_ceil(pat.len()));
            for e in ["\\n", "\\\"", "\\u0041", ""] {
                long.push(format!("{}{}", e, body));
                long.push(format!("{}{}", body, e));
                let (i, j) = body.split_at((body.len() / pat.len() / 2) * pat.len());
                long.push(format!("{}{}{}", i, e, j));
            }
        }
    }
    long.sort();
    long.dedup();
    v.push(texts_family("string-lengths", "strings of sizes around powers of two up to 100 000 bytes x 5 patterns x an escape at the start, in the middle or at the end", long.into_iter().map(|s| format!("2024-01-02 * \"{}\" \"z\"\n", s)).collect(), agree));
    let mut zeros = vec![];
    for n in sizes(Tier::Quick, 70).into_iter().filter(|n| *n < 130) {
        for d in ["", "7", "12.5", ".5", "79228162514264337593543950335"] {
            zeros.push(format!("2024-01-02 price USD {}{} GBP\n", "0".repeat(n + 1), d));
            zeros.push(format!("2024-01-02 price USD 0{}{} GBP\n", ",000".repeat(n), d));
            zeros.push(format!("2024-01-02 price USD 1.{}{} GBP\n", "0".repeat(n), d.trim_start_matches('.')));
        }
    }
    v.push(texts_family("number-zeros", "numbers with up to 130 leading or trailing zeros", zeros, agree));
    v.push(words_family("string-positions", "strings in every position", &owners, &["\\n", "\\\"", "\\\\", "\\u0041", "\\x", "\\q", "a", "é", "\n", " ", "\\", "; ", "\t", "\\'"], t.pick(3, 4), "", agree));
    v.push(words_family("string-quotes", "quotes and backslashes", &[("2024-01-02 custom ", "\n"), ("2024-01-02 *", "\n2024-01-03 close Assets:A\n")], &["\"", "\\", "n", " ", "\n", "a"], t.pick(6, 7), "", agree));
    v
}
