//! C06 (order), C07 (pushed tags and metadata), C11 (options), C17 (long strings).

use crate::{canon::*, common::*, engine::*, gen, refm, tree::*};
use beancount_parser_lima::*;
use std::sync::Arc;

// ---------------------------------------------------------------- C06

const KINDS: [&str; 12] = ["open Assets:A", "balance Assets:A 1 USD", "* \"t\"", "close Assets:A", "pad Assets:A Equity:B", "price USD 1 GBP", "commodity USD", "note Assets:A \"c\"", "document Assets:A \"p\"", "event \"a\" \"b\"", "query \"a\" \"b\"", "custom \"a\""];

fn class(kind: usize) -> u8 {
    match kind {
        0 => 0,
        1 => 1,
        _ => 2,
    }
}

/// A history of directives, each told apart by a metadata value. The specified order is stated here on its own,
/// without the reference parser: by date, then class, then occurrence.
fn ordered(items: &[(String, usize)], out: Outcome, show: &dyn Fn() -> String, ctx: &mut Ctx) -> R {
    if !out.ok {
        return Err(format!("refused {:?}: {}", out.errors.first().map(|e| &e.message), show()));
    }
    let mut exp: Vec<usize> = (0..items.len()).collect();
    // insertion by comparison with every other: position = number of directives that must precede
    let before = |i: usize, j: usize| {
        let (a, b) = (&items[i], &items[j]);
        (a.0.as_str(), class(a.1), i) < (b.0.as_str(), class(b.1), j)
    };
    if items.len() <= 12 {
        let rank: Vec<usize> = (0..items.len()).map(|j| (0..items.len()).filter(|i| before(*i, j)).count()).collect();
        for (i, r) in rank.iter().enumerate() {
            exp[*r] = i;
        }
    } else {
        exp.sort_by(|i, j| if before(*i, *j) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
    }
    let got: Vec<(String, String)> = out.directives.iter().map(|d| (d.get("kv:id").map(|f| f.val.clone()).unwrap_or_default(), d.get("date").unwrap().val.clone())).collect();
    let want: Vec<(String, String)> = exp.iter().map(|i| (format!("str {:?}", i.to_string()), items[*i].0.clone())).collect();
    ctx.trace(items.len() as u64);
    ctx.state(&exp);
    ctx.outcome(&format!("{} directives, {} moved", items.len().min(20), exp.iter().enumerate().filter(|(a, b)| a != *b).count().min(20)));
    if got != want {
        return Err(format!("order {:?}, expected {:?}: {}", got, want, show()));
    }
    Ok(())
}

fn item_text(date: &str, kind: usize, id: usize) -> String {
    format!("{} {}\n  id: \"{}\"\n", date, KINDS[kind], id)
}

fn order_text(items: &[(String, usize)], ctx: &mut Ctx) -> R {
    let text: String = items.iter().enumerate().map(|(i, (d, k))| item_text(d, *k, i)).collect();
    let out = guarded(|| parse_text(&text))?;
    ordered(items, out, &|| if text.len() < 3000 { format!("{:?}", text) } else { format!("{} directives", items.len()) }, ctx)
}

fn order_words(name: &str, dates: &'static [&'static str], kinds: &'static [usize], min: u32, max: u32) -> Family {
    let k = (dates.len() * kinds.len()) as u64;
    let total: u64 = (min..=max).map(|l| k.pow(l)).sum();
    let skip = if min == 0 { 0 } else { words_count(k, min - 1) };
    family(name, format!("all sequences of {}..={} directives over dates {:?} and kinds {:?}", min, max, dates, kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>()), total, move |i, ctx| {
        let w = word(i + skip, k);
        let items: Vec<(String, usize)> = w.iter().map(|s| (dates[s % dates.len()].to_string(), kinds[s / dates.len()])).collect();
        order_text(&items, ctx)
    })
}

pub fn c06(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(order_words("two-dates", &["2024-01-01", "2024-01-02"], &[0, 1, 2, 3], 0, t.pick(5, 6)));
    v.push(order_words("all-kinds", &["2024-01-01", "2024-01-02"], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], 0, t.pick(3, 4)));
    v.push(order_words("three-dates", &["2024-02-01", "2024-01-02", "2024-10-01"], &[1, 2, 0], 0, t.pick(5, 6)));
    v.push(order_words("one-date", &["2024-01-01"], &[0, 1, 5], 6, t.pick(9, 11)));
    v.push(order_words("dates-only", &["2024-01-03", "2024-01-01", "2024-01-02"], &[2], 6, t.pick(9, 10)));
    v.push(order_words("extreme-dates", &["0000-01-01", "0001-01-01", "1969-12-31", "1970-01-01", "9999-12-31", "2024-02-29", "2024-12-31", "2025-01-01", "2024-09-30", "2024-10-01"], &[0, 2], 0, t.pick(4, 5)));
    // every form of every kind, with everything a directive may carry
    let mut forms: Vec<(String, usize)> = vec![];
    for (k, fs) in gen::args() {
        for f in fs {
            forms.push((format!("{} {}", k, f), match k { "open" => 0, "balance" => 1, _ => 3 }));
        }
    }
    for f in ["txn", "*", "! \"n\"", "* \"p\" \"n\"", "'B \"\" \"n\"", "# \"p\" \"\""] {
        forms.push((f.to_string(), 2));
    }
    let carry = [("", ""), (" #t ^l", ""), ("", "  open: TRUE\n"), ("", "  #t\n  ^l\n")];
    let (nf, nc) = (forms.len() as u64, carry.len() as u64);
    v.push(family("forms", format!("every pair of {} forms of directives, with tags and metadata or without, on one date or two, before an open and a balance", nf), nf * nf * nc * nc * 2, move |i, ctx| {
        let d = digits(i, &[nf, nf, nc, nc, 2]);
        let mut items = vec![];
        let mut text = String::new();
        for (n, (f, c)) in [(d[0], d[2]), (d[1], d[3])].into_iter().enumerate() {
            let date = ["2024-01-02", "2024-01-01"][n * d[4]];
            // customs take no tags on their line
            let inline = if forms[f].0.starts_with("custom") { "" } else { carry[c].0 };
            text += &format!("{} {}{}\n{}  id: \"{}\"\n", date, forms[f].0, inline, carry[c].1, n);
            if forms[f].1 == 2 {
                text += "  Assets:A 1 USD\n  Assets:B\n";
            }
            items.push((date.to_string(), forms[f].1));
        }
        for (n, k) in [(2, 0), (3, 1)] {
            text += &item_text("2024-01-02", k, n);
            items.push(("2024-01-02".to_string(), k));
        }
        let out = guarded(|| parse_text(&text))?;
        ordered(&items, out, &|| format!("{:?}", text), ctx)
    }));
    // permutations of distinct dates
    let n = t.pick(7usize, 8);
    let total: u64 = (1..=n as u64).product();
    v.push(family("permutations", format!("all permutations of {} dates, of all kinds", n), total, move |i, ctx| {
        let mut pool: Vec<usize> = (0..n).collect();
        let mut k = i;
        let mut items = vec![];
        for m in (1..=n as u64).rev() {
            let x = pool.remove((k % m) as usize);
            k /= m;
            items.push((format!("20{:02}-{:02}-{:02}", 10 + x * 37 % 80, 1 + x % 12, 1 + x * 5 % 28), x % KINDS.len()));
        }
        order_text(&items, ctx)
    }));
    // large files
    let sizes: Vec<usize> = vec![16, 20, 21, 32, 33, 50, 64, 65, 100, 101, 128, 129, 200, 255, 256, 257, 400, 512, 513, 600, 800, 1000, 1001, 1025, 1500, 2049, 4097, 5001, 8193, 10001];
    let patterns = 8u64;
    let ns = sizes.len() as u64;
    let sz = sizes.clone();
    v.push(family("large", format!("{} sizes up to 10001 x sorted, reversed, interleaved, sawtooth, equal and blockwise dates x 3 kind patterns", ns), ns * patterns * 3, move |i, ctx| {
        let d = digits(i, &[ns, patterns, 3]);
        let n = sz[d[0]];
        let items: Vec<(String, usize)> = (0..n)
            .map(|i| {
                let x = match d[1] {
                    0 => i,
                    1 => n - 1 - i,
                    2 => i * 7919 % 997,
                    3 => i % 10,
                    4 => 0,
                    5 => (n - i) / 10,
                    6 => if i % 2 == 0 { i } else { n - i },
                    _ => i * i % 101,
                };
                let k = match d[2] {
                    0 => 2,
                    1 => i % 3,
                    _ => i * 5 % 12,
                };
                (format!("{:04}-{:02}-{:02}", 1990 + x / 336, 1 + x / 28 % 12, 1 + x % 28), k)
            })
            .collect();
        order_text(&items, ctx)
    }));
    // across includes: the place of a directive is that of its include
    let k = 4u64; // date x class
    let slots = t.pick(5u32, 6); // directives: root before, in a, in a's include c, in a after, between, in b, after
    v.push(family("includes", "root, a (included first), c (included by a), b (included twice): all assignments of date and kind to the directives in each", k.pow(slots + 1), move |i, ctx| {
        let w = digits(i, &vec![k; slots as usize + 1]);
        let mut w = w.iter().map(|x| (["2024-01-01", "2024-01-02"][x % 2].to_string(), [2usize, 0][x / 2])).collect::<Vec<_>>();
        while w.len() < 7 {
            w.push(("2024-01-01".into(), 2));
        }
        let tx: Vec<String> = w.iter().enumerate().map(|(i, (d, k))| item_text(d, *k, i)).collect();
        let dir = world();
        let mut tr = Tree::new(&dir);
        tr.file("root.bean", &format!("{}include \"a.bean\"\n{}include \"sub/b.bean\"\n{}include \"./sub/b.bean\"\n", tx[0], tx[4], tx[6]));
        tr.file("a.bean", &format!("{}include \"sub/c.bean\"\n{}", tx[1], tx[3]));
        tr.file("sub/c.bean", &tx[2]);
        tr.file("sub/b.bean", &tx[5]);
        tr.write();
        let out = parse_tree(&tr, "root.bean")?;
        ordered(&w, out, &|| describe(&tr), ctx)
    }));
    v
}

// ---------------------------------------------------------------- C07

const PP: [&str; 14] = [
    "pushtag #t\n", "poptag #t\n", "pushtag #u\n", "poptag #u\n", "pushmeta kk: 1\n", "pushmeta kk: \"2\"\n", "popmeta kk:\n", "pushmeta mm: USD\n", "popmeta mm:\n", "2024-01-01 close Assets:A\n", "2024-01-01 * #t\n", "2024-01-01 close Assets:B\n  kk: 9\n", "2024-01-01 *\n  Assets:A\n    kk: 3\n    #t\n", "2024-01-01 open Assets:C #u ^t\n  mm:\n",
];

pub fn c07(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(words_family("stacks", "sequences of pushes, pops and directives", &[("", "")], &PP, t.pick(4, 5), "", agree_places));
    // balanced at the end, so that the results are returned: deeper histories over fewer symbols
    let tags = [PP[0], PP[1], PP[2], PP[3], PP[9], PP[10]];
    v.push(words_family("tags", "tags only, with pops at the end to balance", &[("", ""), ("pushtag #t\n", "2024-01-01 close Assets:Z\npoptag #t\n"), ("pushtag #t\npushtag #u\n", "2024-01-01 close Assets:Z\npoptag #u\npoptag #t\n")], &tags, t.pick(6, 7), "", agree_places));
    let meta = [PP[4], PP[5], PP[6], PP[9], PP[11], PP[12]];
    v.push(words_family("metadata", "metadata only, with pops at the end to balance", &[("", ""), ("pushmeta kk: 7\n", "2024-01-01 close Assets:Z\npopmeta kk:\n"), ("pushmeta kk: 7\npushmeta kk: TRUE\n", "2024-01-01 close Assets:Z\npopmeta kk:\n2024-01-01 close Assets:Z\npopmeta kk:\n")], &meta, t.pick(6, 7), "", agree_places));
    // auto-balanced histories: whatever the word leaves pushed is popped at the end, with directives in between
    let k = PP.len() as u64;
    let n = t.pick(4, 5);
    v.push(family("balanced", format!("all sequences of 0..={} symbols, closed by the pops it lacks with a directive before each", n), words_count(k, n), move |i, ctx| {
        let mut text = String::new();
        let mut stack: Vec<&str> = vec![];
        for s in word(i, k) {
            let x = PP[s];
            let pop = match s {
                0 => Some(PP[1]),
                2 => Some(PP[3]),
                4 | 5 => Some(PP[6]),
                7 => Some(PP[8]),
                _ => None,
            };
            if let Some(p) = pop {
                stack.push(p);
            } else if [1, 3, 6, 8].contains(&s) {
                match stack.iter().rposition(|y| *y == x) {
                    Some(j) => {
                        stack.remove(j);
                    }
                    None => {
                        ctx.trace(1);
                        return Ok(());
                    }
                }
            }
            text += x;
        }
        for (j, p) in stack.iter().enumerate() {
            text += &format!("2024-01-02 note Assets:A \"{}\"\n", j);
            text += p;
        }
        text += "2024-01-03 close Assets:Z\n";
        agree_places(&text, ctx)
    }));
    // every kind of directive is augmented, with every kind of value
    let heads: Vec<String> = crate::gen::headers().into_iter().map(|h| format!("{}\n", h)).chain(strs(&["2024-01-02 *\n", "2024-01-02 txn \"p\" \"n\" #own\n  Assets:A 1 USD\n    pk: 1\n  Assets:B\n"])).collect();
    v.push(grid_family_(
        "every-directive",
        "values x directives x own tags and keys",
        vec![strs(&["pushtag #t\npushtag #own\npushmeta k1: "]), strs(&crate::gen::VALUES), strs(&["\n"]), heads, strs(&["", "  k1: 5\n", "  k2: 6\n  #t2\n", "  k1:\n", "  k2: 1\n  k3: 2\n  k4: 3\n", "  k2: 1\n  k3: 2\n  k4: 3\n  k5: 4\n  k1: 5\n", "  #t2\n  #t3\n  #t4\n  ^t\n  ^t2\n", "  ^t2\n  ^t3\n  ^t4\n  kk: 1\n"]), strs(&["popmeta k1:\npoptag #t\npoptag #own\n"])],
        agree_places,
    ));
    v.push(super::fidelity::shapes(t, "shapes", agree_places));
    // many different names at once
    let ns: Vec<u64> = sizes(t, 60).into_iter().filter(|n| *n > 0 && *n < t.pick(600, 1200)).map(|n| n as u64).collect();
    v.push(family("many-names", "1..=60, and up to 513 (1100) distinct tags and keys pushed, popped in three orders, directives between", ns.len() as u64 * 3, move |i, ctx| {
        let n = ns[(i / 3) as usize];
        let mut text = String::new();
        for x in 0..n {
            text += &format!("pushtag #t{}\npushmeta k{}: {}\n2024-01-01 close Assets:A{}\n", x, x, x, x);
        }
        for y in 0..n {
            let x = match i % 3 {
                0 => n - 1 - y,
                1 => y,
                _ => (y * 7 + 3) % n,
            };
            if i % 3 == 2 && n % 7 == 0 {
                let x = y;
                text += &format!("poptag #t{}\npopmeta k{}:\n2024-01-02 close Assets:A{}\n", x, x, x);
            } else {
                text += &format!("poptag #t{}\npopmeta k{}:\n2024-01-02 close Assets:A{}\n", x, x, x);
            }
        }
        agree_places(&text, ctx)
    }));
    // names that are nearly the same
    let tags = ["t", "T", "tt", "t-"];
    let keys = ["kk", "kK", "kkk", "open"];
    let k4 = 4u64;
    let near = t.pick(4u32, 5);
    v.push(family("near-names", format!("all sequences of {} of pushes and pops of tags {:?} and keys {:?}, and a directive, balanced at the end", near, tags, keys), (4 * k4 + 1).pow(near), move |i, ctx| {
        let d = digits(i, &vec![4 * k4 + 1; near as usize]);
        let (mut text, mut tail) = (String::new(), String::new());
        for (n, s) in d.iter().enumerate() {
            let (x, y) = (s / 4, s % 4);
            match x {
                0 => {
                    text += &format!("pushtag #{}\n", tags[y]);
                    tail += &format!("2024-01-03 close Assets:Z\npoptag #{}\n", tags[y]);
                }
                1 => {
                    text += &format!("pushmeta {}: {}\n", keys[y], n);
                    tail += &format!("popmeta {}:\n2024-01-03 close Assets:Z\n", keys[y]);
                }
                2 => text += &format!("2024-01-01 * #{}\n  {}: 1\n", tags[y], keys[y]),
                3 => {
                    // pop one earlier, with its closing removed
                    let (p, q) = (format!("2024-01-03 close Assets:Z\npoptag #{}\n", tags[y]), format!("popmeta {}:\n2024-01-03 close Assets:Z\n", keys[y]));
                    if let Some(at) = tail.find(&p) {
                        tail.replace_range(at..at + p.len(), "");
                        text += &format!("poptag #{}\n", tags[y]);
                    } else if let Some(at) = tail.find(&q) {
                        tail.replace_range(at..at + q.len(), "");
                        text += &format!("popmeta {}:\n", keys[y]);
                    }
                }
                _ => text += "2024-01-01 close Assets:A\n",
            }
        }
        agree_places(&format!("{}{}", text, tail), ctx)
    }));
    // the same pushed again and again
    let ns: Vec<u64> = sizes(t, 80).into_iter().filter(|n| *n > 0).map(|n| n as u64).collect();
    v.push(family("depth", "the same tag or key pushed 1..=80, and up to 1100 times, popped as often, once more or once less", ns.len() as u64 * 6, move |i, ctx| {
        let (n, m) = (ns[(i / 6) as usize], i % 6);
        let pops = n + m / 2 - 1;
        let mut text = String::new();
        for x in 0..n {
            text += &if m % 2 == 0 { format!("pushtag #t\n2024-01-01 close Assets:A{}\n", x) } else { format!("pushmeta kk: {}\n2024-01-01 close Assets:A{}\n", x, x) };
        }
        for x in 0..pops {
            text += &format!("{}2024-01-02 close Assets:A{}\n", if m % 2 == 0 { "poptag #t\n" } else { "popmeta kk:\n" }, x);
        }
        agree_places(&text, ctx)
    }));
    // across files
    let parts = ["", "pushtag #t\n", "poptag #t\n", "pushmeta kk: 1\n", "popmeta kk:\n", "2024-01-01 close Assets:A\n", "pushtag #u\npushtag #t\n", "poptag #u\n"];
    let before = ["", "pushtag #t\npushtag #u\n", "pushmeta kk: 2\npushmeta mm: 3\n", "pushtag #t\npushmeta kk: 4\npushtag #t\npushmeta kk: 5\n"];
    let np = parts.len() as u64;
    let len = t.pick(4usize, 5);
    v.push(family("includes", format!("one of {:?}, then {} places before, in and after nested included files, each one of {:?}; then balanced at the end, or not", before, len, parts), np.pow(len as u32) * 8, move |i, ctx| {
        let d = digits(i / 8, &vec![np; len]);
        let mut d: Vec<&str> = d.iter().map(|x| parts[*x]).collect();
        d.resize(5, "2024-01-02 close Assets:B\n");
        let pre = before[(i % 4) as usize];
        // what is open at the end, in the order of the files' contents
        let mut open: Vec<(&str, &str)> = vec![];
        for l in pre.lines().chain(d.iter().flat_map(|p| p.lines())) {
            let (w, n) = l.split_once(' ').unwrap();
            let n = n.split(' ').next().unwrap();
            match w {
                "pushtag" | "pushmeta" => open.push((w, n)),
                "poptag" | "popmeta" => {
                    if let Some(p) = open.iter().rposition(|o| o.1 == n) {
                        open.remove(p);
                    }
                }
                _ => (),
            }
        }
        let mut tail = String::new();
        if i % 8 < 4 {
            for (w, n) in open.iter().rev() {
                tail += &format!("{} {}\n2024-01-05 close Assets:E\n", w.replace("push", "pop"), n);
            }
        }
        let dir = world();
        let mut tr = Tree::new(&dir);
        tr.file("root.bean", &format!("{}{}include \"a.bean\"\n{}2024-01-03 close Assets:C\ninclude \"b.bean\"\n{}", pre, d[0], d[4], tail));
        tr.file("a.bean", &format!("{}include \"c.bean\"\n{}", d[1], d[3]));
        tr.file("c.bean", d[2]);
        tr.file("b.bean", "2024-01-04 close Assets:D\n");
        agree_tree(&tr, "root.bean", ctx, false)
    }));
    // a file included again, in the same context or another
    let len = t.pick(4usize, 5);
    let parts = ["", "pushtag #t\n", "poptag #t\n", "pushmeta kk: 1\n", "popmeta kk:\n", "pushtag #u\n", "pushmeta kk: 2\n", "poptag #u\n", "pushmeta ll: 1\n"];
    let np = parts.len() as u64;
    v.push(family("again", format!("a file included twice, {} places before, between and after, each one of {:?}, balanced at the end, directly or through another file", len, parts), np.pow(len as u32) * 2, move |i, ctx| {
        let d: Vec<&str> = digits(i / 2, &vec![np; len]).iter().map(|x| parts[*x]).collect();
        let mut open: Vec<(&str, &str)> = vec![];
        for l in d.iter().flat_map(|p| p.lines()) {
            let (w, n) = l.split_once(' ').unwrap();
            let n = n.split(' ').next().unwrap();
            if w.starts_with("push") {
                open.push((w, n));
            } else {
                match open.iter().rposition(|o| o.1 == n) {
                    Some(p) => {
                        open.remove(p);
                    }
                    None => {
                        ctx.trace(1);
                        return Ok(());
                    }
                }
            }
        }
        let tail: String = open.iter().rev().map(|(w, n)| format!("{} {}\n2024-01-05 close Assets:E\n", w.replace("push", "pop"), n)).collect();
        let mut tr = Tree::new(&world());
        let second = if i % 2 == 0 { "a.bean" } else { "b.bean" };
        tr.file("root.bean", &format!("{}{}include \"a.bean\"\n{}include \"{}\"\n{}2024-01-03 close Assets:C\n{}", d[0], d[1], d[2..len - 1].concat(), second, d[len - 1], tail));
        tr.file("a.bean", "2024-01-02 close Assets:A #own\n  own: 1\n");
        tr.file("b.bean", "2024-01-04 close Assets:D\ninclude \"a.bean\"\n");
        agree_tree(&tr, "root.bean", ctx, false)
    }));
    v
}

// ---------------------------------------------------------------- C11

pub const OPTIONS: [&str; 24] = [
    "title", "name_assets", "name_liabilities", "name_equity", "name_income", "name_expenses", "account_previous_balances", "account_previous_earnings", "account_previous_conversions", "account_current_earnings", "account_current_conversions", "account_unrealized_gains", "account_rounding", "conversion_currency", "inferred_tolerance_default", "inferred_tolerance_multiplier", "infer_tolerance_from_cost", "documents", "operating_currency", "render_commas", "long_string_maxlines", "booking_method", "plugin_processing_mode", "no_such_option",
];

const OVALUES: [&str; 84] = [
    "255", "256", "65535", "65536", "2147483648", "4294967295", "4294967296", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-0", "00", "007", "0x10", "1_000", ".5", "5.", "0.0000000000000000000000000001", "79228162514264337593543950335", "79228162514264337593543950336",
    "", "x", "A", "Assets", "Aktiva", "Ertrag-1", "É", "Aé", "lower", "A:B", "Equity:Opening", "A:b", "A::B", ":A", "A:", "1A", "-A", "USD", "GBP", "US", "/X", "U-", "usd", "USD:0.5", "*:0.005", "GBP:1", "USD:0.5:1", "USD:", "USD", ":0.5", "*", "USD:x", "USD:-1", "0", "1", "2", "-1", "1.5", "0.50", "1,000", "1e3", "99999999999999999999", "+1", " 1", "TRUE", "true", "False", "tRuE", "yes", "T", "STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO", "fifo", "DEFAULT", "RAW", "raw", "docs/a", "/abs/docs", "a\\\"b",
];

/// agreement, places of errors, and the accessors that compute something
fn options_agree(text: &str, ctx: &mut Ctx) -> R {
    agree_places(text, ctx)?;
    guarded(|| -> R {
        let sources = BeancountSources::from(text);
        let parser = BeancountParser::new(&sources);
        let Ok(ParseSuccess { options, .. }) = parser.parse() else { return Ok(()) };
        // tolerance defaults: a currency's own, else that of any
        let given: Vec<(Option<String>, String)> = options.inferred_tolerance_defaults().map(|(c, d)| (c.map(|c| c.to_string()), d.to_string())).collect();
        let any = given.iter().find(|g| g.0.is_none()).map(|g| g.1.clone());
        if options.inferred_tolerance_default_fallback().map(|d| d.to_string()) != any {
            return Err(format!("fallback tolerance {:?}, given {:?}: {:?}", options.inferred_tolerance_default_fallback(), given, text));
        }
        for c in ["USD", "GBP", "EUR"] {
            let cur = Currency::try_from(c).unwrap();
            let want = given.iter().find(|g| g.0.as_deref() == Some(c)).map(|g| g.1.clone()).or(any.clone());
            let got = options.inferred_tolerance_default(&cur).map(|d| d.to_string());
            if got != want {
                return Err(format!("tolerance of {} is {:?}, expected {:?}: {:?}", c, got, want, text));
            }
        }
        Ok(())
    })
    .and_then(|r| r)
}

fn opt(n: &str, v: &str) -> String {
    format!("option \"{}\" \"{}\"\n", n, v)
}

/// a valid and another valid value of each option
const VALID2: [(&str, &str, &str); 23] = [
    ("title", "x", "y"), ("name_assets", "Aktiva", "Ak2"), ("name_liabilities", "Passiva", "Pa2"), ("name_equity", "Eigen", "Ei2"), ("name_income", "Ertrag", "Er2"), ("name_expenses", "Aufwand", "Au2"),
    ("account_previous_balances", "A:B", "C"), ("account_previous_earnings", "A:C", "D"), ("account_previous_conversions", "A:D", "E"), ("account_current_earnings", "A:E", "F"), ("account_current_conversions", "A:F", "G"), ("account_unrealized_gains", "A:G", "H"), ("account_rounding", "A:H", "I"),
    ("conversion_currency", "NOTHING", "USD"), ("inferred_tolerance_default", "USD:0.5", "*:0.1"), ("inferred_tolerance_multiplier", "1.1", "2"), ("infer_tolerance_from_cost", "TRUE", "false"), ("documents", "d1", "d2"), ("operating_currency", "USD", "GBP"), ("render_commas", "1", "FALSE"), ("long_string_maxlines", "2", "100"), ("booking_method", "FIFO", "LIFO"), ("plugin_processing_mode", "RAW", "DEFAULT"),
];

pub fn c11(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let mut texts = vec![];
    for n in OPTIONS {
        for x in OVALUES {
            texts.push(opt(n, x));
        }
    }
    for n in ["", "Title", "title ", "name_asset", "operating_currency\\n", "include", "plugin", "options"] {
        texts.push(opt(n, "USD"));
    }
    v.push(texts_family("values", format!("{} options x {} values", OPTIONS.len(), OVALUES.len()), texts, options_agree));
    let mut edited = vec![];
    for (n, a, b) in VALID2 {
        for x in [a, b] {
            let c: Vec<char> = x.chars().collect();
            for i in 0..=c.len() {
                let (h, l): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
                for ins in [":", " ", ",", "-", "+", "_", ".", "*", "0", "9", "a", "E", "É", "\n", "٢"] {
                    edited.push(opt(n, &format!("{}{}{}", h, ins, l)));
                }
                if i < c.len() {
                    edited.push(opt(n, &format!("{}{}", h, c[i + 1..].iter().collect::<String>())));
                    edited.push(opt(n, &format!("{}{}{}", h, l, h)));
                }
            }
        }
    }
    v.push(texts_family("edited values", "two values of each option with every insertion of one of 15 characters, every deletion, and parts repeated", edited, options_agree));
    // pairs of options with two values each, in both orders, and the same twice
    let mut lines = vec![];
    for (n, a, b) in VALID2 {
        lines.push(opt(n, a));
        lines.push(opt(n, b));
    }
    let dirs = strs(&["", "2024-01-01 open Assets:A\n", "2024-01-01 open Aktiva:A\n", "2024-01-01 note Assets:A \"a\nb\nc\"\n"]);
    v.push(grid_family_("pairs", "pairs of option lines with a directive between", vec![lines.clone(), dirs, lines.clone()], options_agree));
    if t == Tier::Thorough {
        v.push(grid_family_("triples", "triples of option lines", vec![lines.clone(), lines.clone(), lines.clone()], options_agree));
    }
    // multi-valued options
    let multi: Vec<String> = [("inferred_tolerance_default", "USD:0.5"), ("inferred_tolerance_default", "USD:0.6"), ("inferred_tolerance_default", "GBP:1"), ("inferred_tolerance_default", "*:2"), ("inferred_tolerance_default", "*:0"), ("operating_currency", "USD"), ("operating_currency", "GBP"), ("documents", "d"), ("documents", "e"), ("documents", "./d")].iter().map(|(a, b)| opt(a, b)).collect();
    let multi: Vec<&str> = multi.iter().map(|s| s.as_str()).collect();
    v.push(words_family("multiple", "sequences of options that take several values", &[("", "")], &multi, t.pick(4, 5), "", options_agree));
    // account type names: histories of renaming, with directives that use old and new names
    let names: Vec<String> = vec![
        opt("name_assets", "Aktiva"), opt("name_assets", "Liabilities"), opt("name_liabilities", "Aktiva"), opt("name_liabilities", "Passiva"), opt("name_assets", "Assets"), opt("name_liabilities", "Assets"), opt("name_income", "Liabilities"), "2024-01-01 open Assets:X\n".into(), "2024-01-01 open Aktiva:X\n".into(), "2024-01-01 pad Liabilities:X Passiva:Y\n".into(), "2024-01-01 *\n  Liabilities:X\n    kk: Assets:A\n".into(), "2024-01-01 custom \"x\" Aktiva:Z\n".into(),
    ];
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    v.push(words_family("renaming", "sequences of renamings and directives", &[("", "")], &names, t.pick(4, 5), "", options_agree));
    let fives: Vec<Vec<String>> = ["assets", "liabilities", "equity", "income", "expenses"].iter().map(|n| vec![String::new(), opt(&format!("name_{}", n), "Aa"), opt(&format!("name_{}", n), "Equity"), opt(&format!("name_{}", n), &format!("New-{}", n))]).collect();
    let mut slots = fives;
    slots.push(strs(&["2024-01-01 open Assets:X\n", "2024-01-01 open Aa:X\n", "2024-01-01 open Equity:X\n", "2024-01-01 open New-income:X\n2024-01-01 open New-expenses:Y\n", ""]));
    v.push(grid_family_("five-names", "each account type kept, renamed to a common name, to another's default, or to its own", slots, options_agree));
    // a name made from a default one
    const TYPES: [&str; 5] = ["Assets", "Liabilities", "Equity", "Income", "Expenses"];
    let mut derived = vec![];
    for n in TYPES {
        for k in 1..n.len() {
            derived.push(n[..k].to_string());
        }
        derived.push(n.to_string());
        for x in ["s", "-", "0", "é", "-Assets", "Income"] {
            derived.push(format!("{}{}", n, x));
        }
        derived.push(n.to_uppercase());
        derived.push(format!("{}{}", &n[..1], n));
        derived.push(format!("É{}", n));
    }
    let (nd, derived) = (derived.len() as u64, Arc::new(derived));
    v.push(family("derived-names", format!("each of the 5 account types renamed to each of {} names made from the default ones, then maybe to another; accounts of every type by default and new name", nd), 5 * nd * 3, move |i, ctx| {
        let d = digits(i, &[3, 5, nd]);
        let (ty, to) = (TYPES[d[1]], &derived[d[2]]);
        let mut head = opt(&format!("name_{}", ty.to_lowercase()), to);
        let mut uses: Vec<String> = TYPES.iter().map(|s| s.to_string()).collect();
        uses.push(to.clone());
        match d[0] {
            1 => {
                let other = TYPES[(d[1] + 1) % 5];
                head += &opt(&format!("name_{}", other.to_lowercase()), ty);
            }
            2 => {
                let other = TYPES[(d[1] + 2) % 5];
                head += &opt(&format!("name_{}", other.to_lowercase()), &format!("{}2", to));
                uses.push(format!("{}2", to));
            }
            _ => (),
        }
        options_agree(&head, ctx)?;
        for u in uses {
            options_agree(&format!("{}2024-01-01 open {}:X\n", head, u), ctx)?;
        }
        Ok(())
    }));
    // files: options of the root, of included files, and relative document directories
    let parts: Vec<String> = vec!["".into(), opt("title", "T"), opt("documents", "docs"), opt("documents", "/abs"), opt("operating_currency", "USD"), opt("name_assets", "Aktiva"), "2024-01-01 open Aktiva:A\n".into(), "2024-01-01 open Assets:A\n".into(), opt("long_string_maxlines", "1")];
    let np = parts.len() as u64;
    let len = t.pick(4u32, 5);
    let parts = Arc::new(parts);
    v.push(family("files", format!("{} places in root (before and after an include), included files in the same and another directory, each one of {} pieces", len, np), np.pow(len), move |i, ctx| {
        let d = digits(i, &vec![np; len as usize]);
        let mut d: Vec<&str> = d.iter().map(|x| parts[*x].as_str()).collect();
        d.resize(5, "");
        let dir = world();
        let mut tr = Tree::new(&dir);
        tr.file("root.bean", &format!("{}include \"a.bean\"\n{}include \"sub/b.bean\"\n", d[0], d[1]));
        tr.file("a.bean", d[2]);
        tr.file("sub/b.bean", &format!("{}{}", d[3], d[4]));
        agree_tree(&tr, "root.bean", ctx, false)
    }));
    // directories of documents, from files anywhere
    let dirs: Vec<String> = [
        "d", "./d", "../d", ".d", "..", ".", "...", "a/../d", "./../d", "d/", "d//e", "d/./e", "d.d", " d", "d e", "~/d", "~d", "é", "/d", "//d", "/./d", "/..", "$HOME/d", "d\\\\e", "-d", "*", "d?", "[d]", "D", "",
    ]
    .iter()
    .map(|d| d.to_string())
    .collect();
    let nd = dirs.len() as u64;
    let dirs = Arc::new(dirs);
    v.push(family("directories", format!("every pair of {} directories of documents in the root and in a file it includes x their places", nd), nd * (nd + 1) * 9, move |i, ctx| {
        let d = digits(i, &[3, 3, nd, nd + 1]);
        let root = ["r.bean", "sub/r.bean", "sub/.x/r.bean"][d[0]];
        let (inc, at) = match (d[0], d[1]) {
            (0, 0) => ("b.bean", "b.bean"),
            (0, 1) => ("oth/b.bean", "oth/b.bean"),
            (0, _) => ("./oth/../b.bean", "b.bean"),
            (1, 0) => ("b.bean", "sub/b.bean"),
            (1, 1) => ("../b.bean", "b.bean"),
            (1, _) => ("../oth/b.bean", "oth/b.bean"),
            (_, 0) => ("b.bean", "sub/.x/b.bean"),
            (_, 1) => ("../b.bean", "sub/b.bean"),
            (_, _) => ("y/b.bean", "sub/.x/y/b.bean"),
        };
        let (a, b) = (dirs[d[2]].as_str(), dirs[d[3].max(1) - 1].as_str());
        // whether one directory spelled in two ways is a duplicate is not specified
        let same = |p: &str, v: &str| std::path::Path::new("/x").join(p).parent().unwrap().join(v).components().collect::<std::path::PathBuf>();
        let by = format!("{}{}", root.strip_suffix("r.bean").unwrap(), inc);
        let twice = d[3] > 0 && same(root, a) == same(&by, b) && a != b;
        let mut tr = Tree::new(&world());
        tr.file(root, &format!("{}include \"{}\"\n", opt("documents", a), inc));
        tr.file("oth/keep.bean", "");
        tr.file(at, &if d[3] == 0 || twice { String::new() } else { opt("documents", b) });
        agree_tree(&tr, root, ctx, false)
    }));
    // many values
    let ns: Vec<usize> = sizes(t, 60)[1..].to_vec();
    v.push(family("many", "1..=60, and up to 1100 values of each option that takes several, any one of them twice or none", ns.len() as u64 * 3 * 8, move |i, ctx| {
        let (n, m, dup) = (ns[(i / 24) as usize], (i / 8 % 3) as usize, (i % 8) as usize);
        let val = |k: usize| match m {
            0 => opt("operating_currency", &format!("C{}", k)),
            1 => opt("documents", &format!("d{}", k)),
            _ => opt("inferred_tolerance_default", &format!("C{}:0.{}", k, k)),
        };
        let mut s: String = (0..n).map(val).collect();
        if dup > 0 {
            s += &val((dup - 1) * n / 7 % n);
        }
        options_agree(&s, ctx)
    }));
    // a single option's value is not disturbed by anything around it
    let around = strs(&["", "; c\n", "plugin \"p\" \"title\"\n", "2024-01-01 custom \"title\" \"y\"\n", "pushtag #t\npoptag #t\n"]);
    let all: Vec<String> = VALID2.iter().flat_map(|(n, a, b)| [opt(n, a), opt(n, b)]).collect();
    v.push(grid_family_("surroundings", "option lines among other declarations", vec![around.clone(), all, around], options_agree));
    v
}

// ---------------------------------------------------------------- C17

/// in an accepted input, exactly the strings over the limit are warned about
pub fn warned(text: &str, ctx: &mut Ctx) -> R {
    let t = expect_inline(text);
    let out = guarded(|| parse_text(text)).map_err(|e| format!("{}: {:?}", e, text))?;
    ctx.trace(t.exp.blocks.len() as u64 + 1);
    check_warnings(&t, &out).map_err(|e| format!("{}: {:?}", e, text))?;
    ctx.state(&(&t.exp.warnings, &t.exp.problems));
    ctx.outcome(&format!("{} warnings, {}", t.exp.warnings.len(), if t.exp.ok { "accepted" } else { "refused" }));
    ctx.sample(|| format!("{:?} -> {:?}", text, t.exp.warnings));
    Ok(())
}

fn check_warnings(t: &ExpectedTree, out: &Outcome) -> R {
    if t.exp.unknown {
        return Ok(());
    }
    if t.exp.ok != out.ok {
        return Err(format!("expected {}, is {} {:?}", t.exp.ok, out.ok, out.errors.first().map(|e| (&e.message, e.span))));
    }
    if !t.exp.ok {
        return Ok(());
    }
    let mut exp: Vec<(Sp, usize, usize, Option<Sp>)> = t.exp.warnings.iter().map(|(n, a, s, o)| (*s, *n, *a, *o)).collect();
    exp.sort();
    let mut got: Vec<&Msg> = out.warnings.iter().collect();
    got.sort_by_key(|m| m.span);
    if exp.iter().map(|e| e.0).collect::<Vec<_>>() != got.iter().map(|m| m.span).collect::<Vec<_>>() {
        return Err(format!("warnings at {:?}, expected {:?}", got.iter().map(|m| m.span).collect::<Vec<_>>(), exp));
    }
    for (e, m) in exp.iter().zip(&got) {
        let words: Vec<String> = format!("{} {}", m.message, m.reason).split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
        if !words.contains(&e.1.to_string()) || !words.contains(&e.2.to_string()) {
            return Err(format!("warning {:?} {:?} does not state {} lines and the limit {}", m.message, m.reason, e.1, e.2));
        }
        let rel: Vec<Sp> = m.related.iter().map(|r| r.1).collect();
        if rel != e.3.into_iter().collect::<Vec<_>>() {
            return Err(format!("warning relates to {:?}, expected {:?}", rel, e.3));
        }
    }
    Ok(())
}

pub const STRPOS: [(&str, &str); 30] = [
    ("2024-01-02 * \"", "\"\n"), ("2024-01-02 * \"", "\" \"n\"\n"), ("2024-01-02 txn \"p\" \"", "\" #t\n  Assets:A\n"), ("2024-01-02 document Assets:A \"", "\"\n"), ("2024-01-02 note Assets:A \"", "\" ^l\n"), ("2024-01-02 event \"", "\" \"d\"\n"), ("2024-01-02 event \"t\" \"", "\"\n"), ("2024-01-02 query \"", "\" \"q\"\n"), ("2024-01-02 query \"n\" \"", "\"\n  kk: 1\n"),
    ("2024-01-02 custom \"", "\"\n"), ("2024-01-02 custom \"", "\" 1 USD\n"), ("2024-01-02 custom \"t\" \"", "\"\n"), ("2024-01-02 custom \"t\" 1 \"", "\" USD\n"), ("2024-01-02 close Assets:A\n  kk: \"", "\"\n"), ("2024-01-02 close Assets:A\n  kk: \"", "\"\n  mm: 1\n  #t\n"), ("2024-01-02 *\n  kk: \"", "\"\n  Assets:A\n"), ("2024-01-02 *\n  Assets:A 1 USD\n    kk: \"", "\"\n"), ("2024-01-02 *\n  Assets:A 1 X {\"", "\"}\n"), ("2024-01-02 *\n  Assets:A 1 X {1 USD, \"", "\"}\n"), ("2024-01-02 *\n  Assets:A 1 X {\"", "\", 2024-01-01, 1 USD}\n"), ("2024-01-02 *\n  Assets:A 1 X {*, \"", "\", 1 # 2 USD} @ 3 USD\n"),
    ("pushmeta kk: \"", "\"\n2024-01-01 close Assets:A\npopmeta kk:\n"), ("option \"title\" \"", "\"\n"), ("plugin \"", "\"\n"), ("plugin \"a\" \"", "\"\n"), ("2024-01-02 ! \"a\" \"", "\"\n  Assets:A 1 USD\n    kk: 1\n"), ("2024-01-02 custom \"t\" TRUE Assets:A \"", "\"\n"), ("2024-01-02 custom \"t\" \"", "\" \"z\" NULL\n"), ("2024-01-02 'X \"", "\" #t ^l\n  kk: \"v\"\n"), ("2024-01-02 * \"", "\"\n  ! Assets:A 1 USD\n  Assets:B -1 USD {} @@ 1\n"),
];

fn lines_of(n: usize) -> String {
    vec!["x"; n].join("\n")
}

pub fn c17(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let pos: Vec<(String, String)> = STRPOS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    // default limit
    let counts = [1usize, 2, 63, 64, 65, 66, 127, 128, 129, 200];
    let np = pos.len() as u64;
    let p = Arc::new(pos);
    let pp = p.clone();
    v.push(family("default", format!("{} positions x line counts {:?} x line ends, no option", np, counts), np * counts.len() as u64 * 3, move |i, ctx| {
        let d = digits(i, &[np, counts.len() as u64, 3]);
        let s = lines_of(counts[d[1]]);
        let s = match d[2] {
            0 => s,
            1 => s.replace('\n', "\r\n"),
            _ => s.replace('\n', "\\n"),
        };
        warned(&format!("{}{}{}", pp[d[0]].0, s, pp[d[0]].1), ctx)
    }));
    // every count, and shapes of strings whose lines are easily miscounted
    let shapes: [fn(usize) -> String; 8] = [
        lines_of, |n| "\n".repeat(n - 1), |n| format!("{}x", "\n".repeat(n - 1)), |n| format!("x{}", "\n".repeat(n - 1)), |n| format!("{}", "\r\n".repeat(n - 1)), |n| format!("{}x", " \n".repeat(n - 1)), |n| format!("{}\\n", "é\n".repeat(n - 1)), |n| format!("\\\"{}", "\\\\\n".repeat(n - 1)),
    ];
    v.push(family("counts", "1..=200 lines x 8 shapes x 2 positions x no limit or one a line less, the same, a line more", 200 * 8 * 2 * 4, move |i, ctx| {
        let d = digits(i, &[200, 8, 2, 4]);
        let n = d[0] + 1;
        let o = if d[3] == 0 { String::new() } else { opt("long_string_maxlines", &(n + d[3] - 2).to_string()) };
        let (a, b) = [("2024-01-02 note Assets:A \"", "\"\n"), ("2024-01-02 * \"", "\" \"x\"\n  kk: \"y\"\n")][d[2]];
        warned(&format!("{}{}{}{}", o, a, shapes[d[1]](n), b), ctx)
    }));
    // many long strings
    let ns: Vec<usize> = sizes(t, 60)[1..].to_vec();
    v.push(family("many", "1..=60, and up to 1100 long strings in as many directives, in one directive, in one transaction's postings", ns.len() as u64 * 3, move |i, ctx| {
        let n = ns[(i / 3) as usize];
        let mut s = opt("long_string_maxlines", "2");
        match i % 3 {
            0 => (0..n).for_each(|k| s += &format!("2024-01-02 note Assets:A \"{}\"\n", lines_of(k as usize % 5 + 1))),
            1 => s += &format!("2024-01-02 custom \"x\"{}\n", (0..n).map(|k| format!(" \"{}\"", lines_of(k as usize % 4 + 1))).collect::<String>()),
            _ => s += &format!("2024-01-02 * \"x\"\n{}", (0..n).map(|k| format!("  Assets:A 1 X {{\"{}\"}}\n    kk: \"{}\"\n", lines_of(k as usize % 4 + 1), lines_of(k as usize % 3 + 1))).collect::<String>()),
        }
        warned(&s, ctx)
    }));
    // limits and counts around them
    let limits = ["0", "1", "2", "3", "5", "64", "65", "100"];
    let pp = p.clone();
    v.push(family("limits", format!("{} positions x limits {:?} x counts 1..=8, 63..=66 x option before, after or in between two", np, limits), np * limits.len() as u64 * 12 * 4, move |i, ctx| {
        let d = digits(i, &[np, limits.len() as u64, 12, 4]);
        let n = if d[2] < 8 { d[2] + 1 } else { 55 + d[2] };
        let s = format!("{}{}{}", pp[d[0]].0, lines_of(n), pp[d[0]].1);
        let o = opt("long_string_maxlines", limits[d[1]]);
        let text = match d[3] {
            0 => format!("{}{}", o, s),
            1 => format!("{}{}", s, o),
            2 => format!("{}{}{}", opt("long_string_maxlines", "4"), o, s),
            _ => format!("{}{}{}", o, s, opt("long_string_maxlines", "4")),
        };
        warned(&text, ctx)
    }));
    // histories of options and strings
    let mut sym: Vec<String> = ["1", "2", "3"].iter().map(|l| opt("long_string_maxlines", l)).collect();
    sym.push(opt("title", "a\nb"));
    for (i, n) in [1usize, 2, 3, 4].iter().enumerate() {
        sym.push(format!("{}{}{}", p[i * 4].0, lines_of(*n), p[i * 4].1));
    }
    sym.push("2024-01-02 * \"a\nb\" \"c\nd\ne\"\n  kk: \"f\ng\"\n  Assets:A 1 X {\"h\ni\nj\"}\n    mm: \"k\nl\"\n".into());
    let sym: Vec<&str> = sym.iter().map(|s| s.as_str()).collect();
    v.push(words_family("histories", "sequences of limits and strings", &[("", "")], &sym, t.pick(5, 6), "", warned));
    // two long strings in one declaration, in every pair of positions of a transaction
    let two = ["\"x\"", "\"a\nb\"", "\"a\nb\nc\""];
    let slots: Vec<Vec<String>> = vec![
        strs(&["option \"long_string_maxlines\" \"1\"\n2024-01-02 * ", "option \"long_string_maxlines\" \"2\"\n2024-01-02 txn "]), strs(&two), strs(&["", " \"n\"", " \"a\nb\"", " \"a\nb\nc\""]), strs(&["\n  kk: "]), strs(&two), strs(&["\n  Assets:A 1 X {"]), strs(&two), strs(&["", ", 1 USD"]), strs(&["}\n    kk: "]), strs(&two), strs(&["\n", "\n  Assets:B\n    mm: \"y\nz\"\n"]),
    ];
    v.push(grid_family_("transactions", "strings of one to three lines in every place of a transaction", slots, warned));
    v.push(grid_family_("customs", "strings of one to three lines among custom values", vec![strs(&["option \"long_string_maxlines\" \"1\"\n2024-01-02 custom "]), strs(&two), strs(&[" "]), strs(&two), strs(&[" ", " 1 ", " 1 USD ", " Assets:A "]), strs(&two), strs(&["\n", " USD\n", "\n  kk: \"q\nr\"\n"])], warned));
    // across files
    let parts: Vec<String> = vec!["".into(), opt("long_string_maxlines", "1"), opt("long_string_maxlines", "3"), "2024-01-02 note Assets:A \"a\nb\"\n".into(), "2024-01-02 * \"a\nb\nc\nd\" \"e\nf\"\n".into(), format!("2024-01-02 query \"q\" \"{}\"\n", lines_of(70))];
    let np = parts.len() as u64;
    let len = t.pick(4u32, 5);
    let parts = Arc::new(parts);
    v.push(family("files", format!("{} places in a root and included files, each one of {} pieces", len, np), np.pow(len), move |i, ctx| {
        let d = digits(i, &vec![np; len as usize]);
        let mut d: Vec<&str> = d.iter().map(|x| parts[*x].as_str()).collect();
        d.resize(5, "");
        let dir = world();
        let mut tr = Tree::new(&dir);
        tr.file("root.bean", &format!("{}include \"a.bean\"\n{}include \"sub/b.bean\"\n", d[0], d[1]));
        tr.file("a.bean", d[2]);
        tr.file("sub/b.bean", &format!("{}{}", d[3], d[4]));
        tr.write();
        let t = expect_tree(&tr, "root.bean").unwrap();
        let out = parse_tree(&tr, "root.bean")?;
        note_tree(&t, ctx);
        check_warnings(&t, &out).map_err(|e| format!("{}{}", e, describe(&tr)))
    }));
    let _ = refm::TYPES;
    v
}
