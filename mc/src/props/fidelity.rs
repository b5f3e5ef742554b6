//! C03 (directive fidelity).

use crate::{common::*, engine::*, gen};

pub fn c03(t: Tier) -> Vec<Family> {
    let mut v = vec![
        gen::simple_directives("directives", agree),
        gen::transactions("transactions", agree),
        gen::postings("postings", agree),
        gen::bodies("bodies", t.pick(4, 5), agree),
        gen::metavalues("metadata-values", agree),
        gen::customs("custom-values", t.pick(4, 5), agree),
    ];
    v.extend(coincidences(t, "", agree));
    v.push(shapes(t, "shapes", agree));
    // two directives, so that nothing leaks from one to the next
    let mut all: Vec<String> = vec![];
    for h in gen::headers() {
        all.push(format!("{}\n", h));
        all.push(format!("{} #a ^b\n  kk: \"v\"\n  #c\n", h));
    }
    for h in gen::txn_headers(&["*", "!"]) {
        all.push(format!("{} #a\n  kk: 1\n  Assets:A 1 USD {{2 USD}} @ 3 USD\n    kk: 2\n    #p\n  Income:B\n", h));
    }
    all.retain(|d| !d.contains("2024-01-02 custom") || !d.contains("#a"));
    v.push(grid_family_("pairs", "every ordered pair of directives", vec![all.clone(), all], agree));
    v
}

/// many of everything that may be repeated
pub fn many(t: Tier, prefix: &str, check: Check) -> Family {
    let mut many = vec![];
    let f = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    for n in sizes(t, t.pick(70, 300)) {
        many.push(format!("2024-01-02 *\n{}", f(n, &|i| format!("  Assets:A{} {} USD\n", i, i))));
        many.push(format!("2024-01-02 *\n{}", f(n, &|_| "  Assets:A 1 USD\n    kk: 1\n".to_string())));
        many.push(format!("2024-01-02 *{}\n", f(n, &|i| format!(" #t{}", i))));
        many.push(format!("2024-01-02 *{}\n", f(n, &|i| format!(" ^l{}", i))));
        many.push(format!("2024-01-02 *\n{}", f(n, &|i| format!("  #t{}\n", i))));
        many.push(format!("2024-01-02 *\n{}  Assets:A\n", f(n, &|i| format!("  ^t{}\n", i))));
        many.push(format!("2024-01-02 close Assets:A\n{}", f(n, &|i| format!("  kk{}: {}\n", i, i))));
        many.push(format!("2024-01-02 *\n  Assets:A\n{}  Assets:B\n", f(n, &|i| format!("    kk{}: {}\n", i, i))));
        many.push(format!("2024-01-02 *\n  Assets:A\n{}  Assets:B\n", f(n, &|i| format!("    #t{}\n    ^t{}\n", i, i))));
        many.push(format!("2024-01-02 open Assets:A C{}\n", f(n, &|i| format!(",C{}", i))));
        many.push(format!("2024-01-02 custom \"x\"{}\n", f(n, &|i| format!(" \"{}\"", i % 3))));
        many.push(format!("2024-01-02 custom \"x\"{}\n", f(n, &|i| format!(" {} USD", i))));
        many.push(f(n, &|_| "2024-01-02 close Assets:A\n".to_string()));
        many.push(f(n, &|_| "plugin \"a\"\n".to_string()));
        many.push(f(n, &|i| format!("2024-01-02 * \"{}\"\n  Assets:A {} USD\n  Assets:B\n\n", i, i)));
        many.push(format!("2024-01-02 balance Assets:A 1{} USD\n", " + 1".repeat(n)));
        many.push(format!("2024-01-02 close Assets{}\n", ":A".repeat(n)));
        many.push(format!("{}2024-01-02 close Assets:A\n{}", f(n, &|i| format!("pushtag #t{}\n", i)), f(n, &|i| format!("poptag #t{}\n", i))));
    }
    texts_family(&format!("{}many", prefix), format!("0..={} and more (up to {}) postings, tags, links, keys, currencies, values, directives, plugins, terms, account components, pushed tags", t.pick(70, 300), t.pick(1100, 5000)), many, check)
}

/// every kind of directive with any number of tags and links, metadata lines and pushes around it
pub fn shapes(t: Tier, name: &str, check: Check) -> Family {
    let heads = strs(&["*", "txn \"n\"", "! \"p\" \"n\"", "open Assets:A", "open Assets:A USD,GBP \"FIFO\"", "close Assets:A", "balance Assets:A 1 USD", "price USD 1 GBP", "commodity USD", "pad Assets:A Equity:B", "document Assets:A \"p\"", "note Assets:A \"c\"", "event \"a\" \"b\"", "query \"a\" \"b\""]);
    let inline = strs(&["", " #a", " #a #b", " #a #b #c", " ^a", " ^a ^b", " #a ^a", " ^a #b ^b", " #a #b ^a ^b", " #c ^a #b ^c #a"]);
    let lines = ["  ka: 1\n", "  kb: \"x\"\n", "  kc:\n", "  kd: 1 USD\n", "  #u\n", "  #v\n", "  ^u\n", "  ^v\n"];
    let n = t.pick(3, 4);
    let metas: Vec<String> = (0..words_count(8, n)).map(|i| word(i, 8)).filter(|w| (1..w.len()).all(|i| !w[..i].contains(&w[i]))).map(|w| w.iter().map(|x| lines[*x]).collect()).collect();
    let pushes = strs(&["", "pushtag #p\n", "pushmeta kp: 1\n", "pushtag #p\npushtag #q\npushmeta kp: 1\npushmeta ka: 2\n"]);
    let radices = [pushes.len() as u64, heads.len() as u64, inline.len() as u64, metas.len() as u64];
    family(name, format!("{} headers x {} lists of tags and links x {} sequences of up to {} distinct metadata lines x {} lists of pushes", heads.len(), inline.len(), metas.len(), n, pushes.len()), product(&radices), move |i, ctx| {
        let d = digits(i, &radices);
        let push = &pushes[d[0]];
        let pops: String = push.lines().map(|l| format!("{}\n", l.replace("push", "pop").split_inclusive(':').next().unwrap())).collect();
        check(&format!("{}2024-01-02 {}{}\n{}{}", push, heads[d[1]], inline[d[2]], metas[d[3]], pops), ctx)
    })
}

/// what looks special and is not: equal, empty, zero and extreme values in every slot, and many of everything
pub fn coincidences(t: Tier, prefix: &str, check: Check) -> Vec<Family> {
    let mut v = vec![];
    let q = ["\"\"", "\"a\"", "\"A\"", "\"b\"", "\" \"", "\"a \"", "\"a\nb\"", "\"\\\"\"", "\"\\\\\"", "\"*\"", "\"#t\"", "\"NULL\"", "\"1\"", "\"Assets:A\"", "\"2024-01-02\"", "\"é\"", "\"   \"", "\"\t\n \"", "\"\u{a0}\u{3000}\"", "\" a\"", "\"-\"", "\"a\\nb\"", "\"/\"", "\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\""];
    let n = ["0", "0.00", "-0", "1", "1.0", "1.00", "-1", "2", "1-1", "0.1", "1,000", "1/3", "(1)", "0.0000000001", "12345678901234567890"];
    let c = ["USD", "GBP", "A", "/X", "TRUE1", "A.B"];
    let a = ["Assets:A", "Assets:B", "Assets:A:B", "Equity:A", "Income:A", "Liabilities:A", "Expenses:A", "Assets:1", "Assets:Assets:A"];
    let d = ["2024-01-02", "2024-01-01", "2024-01-03", "0001-01-01", "1582-10-10", "1970-01-01", "2024-02-29", "9999-12-31", "2024/01/02"];
    let sp = |xs: &[&str]| -> Vec<String> { xs.iter().map(|x| format!(" {}", x)).collect() };
    let opt = |xs: Vec<String>| -> Vec<String> { std::iter::once(String::new()).chain(xs).collect() };
    let one = |x: &str| vec![x.to_string()];
    let lit = |x: &str, xs: &[&str]| -> Vec<String> { xs.iter().map(|y| format!("{}{}", x, y)).collect() };
    v.push(grid_family_(&format!("{}strings-of-transactions", prefix), "no, one or two strings of a pool, apart or with a bar, with a flag and a tag", vec![lit("2024-01-02 ", &["*", "txn", "'P"]), opt(sp(&q)), opt(cross(&[strs(&[" ", " | "]), strs(&q)])), strs(&["\n", " #a\n", "\n  payee: \"a\"\n  narration: \"a\"\n"])], check));
    v.push(grid_family_(&format!("{}strings", prefix), "two strings of a pool in each directive that has two", vec![lit("2024-01-02 ", &["event", "query", "custom", "custom \"x\"", "document Assets:A", "note Assets:A"]), sp(&q), opt(sp(&q)), strs(&["\n", "\n  kk: \"a\"\n"])], check));
    v.push(grid_family_(&format!("{}plugins", prefix), "one or two plugins, each with or without a configuration, over a pool of strings", vec![one("plugin"), sp(&q), opt(sp(&q)), one("\n"), opt(cross(&[lit("plugin", &[" \"a\"", " \"\"", " \"b\""]), opt(sp(&["\"\"", "\"a\"", "\"b\""])), one("\n")]))], check));
    v.push(grid_family_(&format!("{}balances", prefix), "numbers, tolerances and currencies of pools", vec![lit("2024-01-02 balance ", &["Assets:A", "Equity:E"]), sp(&n), opt(lit(" ~ ", &n)), sp(&c), one("\n")], check));
    v.push(grid_family_(&format!("{}prices", prefix), "currencies and numbers of pools", vec![lit("2024-01-02 price ", &c), sp(&n), sp(&c), one("\n")], check));
    v.push(grid_family_(&format!("{}accounts", prefix), "accounts of a pool in directives with one or two", vec![lit("2024-01-02 ", &["pad", "open", "close", "custom \"x\"", "*\n "]), sp(&a), opt(cross(&[strs(&[" ", "\n  "]), strs(&a)])), one("\n")], check));
    v.push(grid_family_(&format!("{}open", prefix), "up to four currencies of a pool and a booking method", vec![one("2024-01-02 open Assets:A"), opt(sp(&c)), opt(lit(",", &c)), opt(lit(" , ", &c)), strs(&["", " \"FIFO\"", " \"NONE\"", " \"AVERAGE\""]), one("\n")], check));
    let n2 = ["0", "1", "1.00", "-1", "2", "1-1"];
    let c2 = ["USD", "GBP"];
    let amt = opt(cross(&[opt(sp(&n2)), opt(sp(&c2))]).into_iter().filter(|x| !x.is_empty()).collect());
    let total: Vec<String> = amt.iter().map(|x| x.to_string()).collect();
    let costs: Vec<String> = opt([lit(" {", &["}", "*}", "2024-01-02}", "\"\"}", "\"n\"}", "1 # 1 USD}", "0 # 0 USD}", "1 # 0}", "0 # 1}", "# 0 USD}"]), cross(&[one(" {"), amt.clone(), strs(&["}", ", 2024-01-02}", ", \"n\"}"])]), cross(&[one(" {{"), amt.clone(), one("}}")])].concat());
    let prices: Vec<String> = opt(cross(&[strs(&[" @", " @@"]), amt.clone()]));
    v.push(grid_family_(&format!("{}posting-values", prefix), "amounts, costs and prices over small pools of numbers and currencies", vec![one("2024-01-02 * \"n\"\n  Assets:A"), total, costs, prices, one("\n")], check));
    v.push(crate::gen::cost_parts(&format!("{}cost-parts", prefix), t.pick(4, 6), check));
    let posts = ["  Assets:A\n", "  Assets:A 1 USD\n", "  Assets:A -1 USD\n", "  Assets:B 1 USD\n", "  Assets:B\n", "  * Assets:A 1 USD\n", "  Assets:A 1 USD {1 USD}\n", "  Assets:A 1 USD @ 1 USD\n", "  Assets:A 0 USD\n", "  Assets:A 1\n", "  Assets:A USD\n", "    kk: 1\n", "    #t\n", "    ^t\n"];
    v.push(words_family(&format!("{}postings-alike", prefix), "postings that are the same or nearly, with metadata that repeats the transaction's", &[("2024-01-02 *\n", ""), ("2024-01-02 * \"t\" #t ^t\n  kk: 1\n", "")], &posts, t.pick(4, 5), "", check));
    let all = ["2024-01-02 open Assets:A\n", "2024-01-02 close Assets:A\n", "2024-01-02 *\n", "2024-01-02 * \"a\"\n  Assets:A 1 USD\n", "2024-01-02 price USD 1 GBP\n", "2024-01-02 balance Assets:A 0 USD\n", "2024-01-02 note Assets:A \"\"\n", "2024-01-02 custom \"x\"\n", "plugin \"a\"\n", "2024-01-02 pad Assets:A Assets:A\n"];
    v.push(words_family(&format!("{}repeated", prefix), "the same directives again and again", &[("", "")], &all, t.pick(4, 6), "", check));
    v.push(grid_family_(&format!("{}dates", prefix), "dates of a pool as the directive's, the cost's and a value", vec![strs(&d), strs(&[" *\n  Assets:A 1 USD {"]), strs(&d), strs(&["}\n    kk: "]), strs(&d), one("\n")], check));
    v.push(many(t, prefix, check));
    let mut flags: Vec<String> = ('A'..='Z').map(|c| format!("'{}", c)).collect();
    flags.extend(["*", "!", "&", "#", "?", "%"].iter().map(|s| s.to_string()));
    v.push(grid_family_(&format!("{}flags", prefix), "every flag on a transaction x every flag on a posting", vec![one("2024-01-02 "), [flags.clone(), one("txn")].concat(), one(" \"n\"\n  "), opt(flags.iter().map(|f| format!("{} ", f)).collect()), one("Assets:A 1 USD\n")], check));
    v
}
