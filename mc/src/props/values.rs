//! C13 (display round trip), C16 (validated names), C18 (duplicates), C20 (value semantics).

use crate::{canon::*, common::*, engine::*, gen, refm};
use beancount_parser_lima::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- C13

/// each returned directive, printed and parsed again on its own, is the same directive
pub fn round_trip(text: &str, ctx: &mut Ctx) -> R {
    let err = |m: String| format!("{}: {:?}", m, text);
    guarded(|| -> R {
        let sources = BeancountSources::from(text);
        let parser = BeancountParser::new(&sources);
        let Ok(ParseSuccess { directives, plugins, .. }) = parser.parse() else {
            ctx.trace(1);
            ctx.outcome("refused");
            return Ok(());
        };
        ctx.trace(1 + directives.len() as u64);
        let mut all = String::new();
        let names = account_names(text);
        for d in &directives {
            let shown = format!("{}", d);
            let before = canon(d);
            let again = format!("{}{}\n", names, shown);
            let out = parse_text(&again);
            if !out.ok {
                return Err(err(format!("printed directive is refused ({:?}): {:?}", out.errors.first().map(|e| &e.message), shown)));
            }
            if out.directives.len() != 1 {
                return Err(err(format!("printed directive parses as {} directives: {:?}", out.directives.len(), shown)));
            }
            if let Some(diff) = before.diff_values(&out.directives[0]) {
                return Err(err(format!("printed directive differs: {}: {:?}", diff, shown)));
            }
            if shown != format!("{}", d.item()) {
                return Err(err(format!("the spanned directive prints differently: {:?}", shown)));
            }
            ctx.state(&before.values_only());
            ctx.outcome(&format!("{} of {} lines", kind(d), shown.lines().count()));
            all += &shown;
            all += "\n";
        }
        // all of them together
        let mut again = names;
        for p in &plugins {
            again += &format!("{}\n", p);
        }
        again += &all;
        let out = parse_text(&again);
        if !out.ok || out.directives.len() != directives.len() {
            return Err(err(format!("printed file is refused or differs in number: {:?}", again)));
        }
        for (a, b) in directives.iter().zip(&out.directives) {
            if let Some(diff) = canon(a).diff_values(b) {
                return Err(err(format!("printed file differs: {}: {:?}", diff, again)));
            }
        }
        let pl: Vec<_> = plugins.iter().map(|p| (p.module_name().item().to_string(), p.config().map(|c| c.item().to_string()))).collect();
        if pl != out.plugins {
            return Err(err(format!("printed plugins differ: {:?}", again)));
        }
        ctx.sample(|| format!("{:?} -> {:?}", text, all));
        Ok(())
    })
    .and_then(|r| r)
    .map_err(|e| if e.starts_with("panic") { err(e) } else { e })
}

/// options that decide how accounts are read must accompany the printed directives
fn account_names(text: &str) -> String {
    text.lines().filter(|l| l.starts_with("option \"name_")).map(|l| format!("{}\n", l)).collect()
}

const QUOTED: [&str; 17] = [
    "a", "", " ", "\\\"", "\\\\", "a\\\"b", "\\\\\\\"", "\\\\n", "\\n", "x\ny", "é日😱", "\\t", "'", ";", "#t", "; c\n* h\n", "a\r\nb",
];

pub fn c13(t: Tier) -> Vec<Family> {
    let mut v = vec![
        gen::simple_directives("directives", round_trip),
        gen::transactions("transactions", round_trip),
        gen::postings("postings", round_trip),
        gen::metavalues("metadata-values", round_trip),
        gen::bodies("bodies", t.pick(3, 4), round_trip),
        gen::customs("custom-values", t.pick(3, 4), round_trip),
    ];
    let owners = [
        ("2024-01-02 * \"", "\"\n"), ("2024-01-02 * \"p\" \"", "\"\n  k1: \"v\"\n"), ("2024-01-02 * \"", "\" \"n\" #t\n"), ("2024-01-02 document Assets:A \"", "\" #t ^l\n"), ("2024-01-02 note Assets:A \"", "\"\n"), ("2024-01-02 event \"", "\" \"d\"\n"), ("2024-01-02 event \"t\" \"", "\"\n"), ("2024-01-02 query \"", "\" \"q\"\n"),
        ("2024-01-02 query \"n\" \"", "\"\n"), ("2024-01-02 custom \"", "\" 1\n"), ("2024-01-02 custom \"t\" \"", "\" \"z\" 1 USD\n"), ("2024-01-02 *\n  kk: \"", "\"\n  #t\n"), ("2024-01-02 *\n  Assets:A\n    kk: \"", "\"\n    ^l\n"), ("2024-01-02 *\n  Assets:A 1 X {\"", "\", 1 USD} @ 2 USD\n"),
        ("plugin \"", "\"\n"), ("plugin \"m\" \"", "\"\n"), ("pushmeta kk: \"", "\"\n2024-01-01 close Assets:A\npopmeta kk:\n"),
    ];
    v.push(words_family("strings", "strings needing quotes in every position", &owners, &QUOTED, t.pick(2, 3), "", round_trip));
    v.extend(super::fidelity::coincidences(t, "pool: ", round_trip));
    v.push(super::fidelity::shapes(t, "shapes", round_trip));
    // numbers and expressions
    let exprs = ["1", "-1", "+1", "1.50", "0.00", "-0", "1,000.5", "1+2", "1-2", "1 - -2", "2*3", "2/4", "(1+2)*3", "1+2*3", "-(1+2)", "-(-1)", "(((1)))", "1-(2-3)", "8/(4/2)", "0.0000000000000000000000000001", "9999999999999999999999999999", "2 * -3", "-2 * 3 + 1", "+(1)", "1 + +2"];
    let mut texts = vec![];
    for (a, b) in super::literals::POSITIONS {
        for e in exprs {
            texts.push(format!("{}{}{}", a, e, b));
        }
    }
    texts.extend(["0.5", "0", "1,000", "0.000"].iter().map(|x| format!("2024-01-02 balance Assets:A 1 ~ {} USD\n", x)));
    v.push(texts_family("numbers", "expressions in every position", texts, round_trip));
    // pushed tags and metadata become the directive's own
    v.push(grid_family_(
        "pushed",
        "pushed tags and metadata x directives with their own",
        vec![
            strs(&["pushtag #p\n", "pushtag #p\npushtag #q\n", "pushtag #t\n"]),
            cross(&[strs(&["pushmeta k1: "]), strs(&gen::VALUES), strs(&["\n"])]),
            strs(&["2024-01-02 close Assets:A\n", "2024-01-02 * \"n\" #t ^l\n  Assets:A 1 USD\n    k1: 2\n    #pt\n", "2024-01-02 open Assets:A USD\n  k1: 5\n  k2: 6\n", "2024-01-02 custom \"x\" 1 USD\n  #u\n", "2024-01-02 query \"a\" \"b\"\n  ^m\n  k2: TRUE\n"]),
            strs(&["popmeta k1:\npoptag #p\n", "popmeta k1:\npoptag #q\npoptag #p\n", "popmeta k1:\npoptag #t\n"]),
        ],
        round_trip,
    ));
    // dates and renamed account types
    v.push(grid_family_("dates", "dates", vec![strs(&["0000", "0001", "0099", "0999", "1999", "2024", "9999"]), strs(&["-", "/"]), strs(&["01", "02", "09", "10", "12"]), strs(&["-"]), strs(&["01", "09", "10", "28", "31"]), strs(&[" open Assets:A\n", " * \"n\"\n  kk: 0001-02-03\n  Assets:A 1 X {0099-10-10}\n"])], round_trip));
    v.push(grid_family_(
        "account-types",
        "renamed account types",
        vec![strs(&["option \"name_assets\" \"Aktiva\"\n", "option \"name_income\" \"Ertrag-1\"\n", "option \"name_equity\" \"Eé\"\n"]), strs(&["2024-01-02 open "]), strs(&["Aktiva:X", "Ertrag-1:X:Y", "Eé:日本", "Assets:A", "Expenses:B"]), strs(&["\n", " USD\n", " \"FIFO\"\n  kk: Expenses:C\n"])],
        round_trip,
    ));
    if t == Tier::Thorough {
        v.push(grid_family_(
            "two-postings",
            "pairs of postings",
            vec![strs(&["2024-01-02 ! \"p\" \"n\"\n  "]), strs(&["", "! "]), strs(&["Assets:A"]), strs(&gen::AMOUNTS), strs(&gen::COSTS), strs(&gen::PRICES), strs(&["\n"]), strs(&gen::POSTMETA), strs(&["  * Income:B"]), strs(&gen::AMOUNTS), strs(&gen::PRICES[..6]), strs(&["\n", "\n    kk: 1\n    #x\n"])],
            round_trip,
        ));
    }
    v
}

// ---------------------------------------------------------------- C16

fn one<'a, T, E>(name: &str, s: &'a str, valid: bool, made: Result<T, E>, text: impl Fn(&T) -> (String, String, String, String)) -> R
where
    E: std::fmt::Display + std::fmt::Debug,
{
    match made {
        Ok(x) => {
            if !valid {
                return Err(format!("{} constructed from invalid {:?}", name, s));
            }
            let (a, b, c, shown) = text(&x);
            let plain = shown == s || (name == "Tag" && shown == format!("#{}", s)) || (name == "Link" && shown == format!("^{}", s));
            if a != s || b != s || c != s || !plain {
                return Err(format!("{} from {:?} gives back {:?} {:?} {:?} {:?}", name, s, a, b, c, shown));
            }
            Ok(())
        }
        Err(e) => {
            if valid {
                return Err(format!("{} refused for valid {:?}: {}", name, s, e));
            }
            if format!("{}", e).is_empty() || format!("{:?}", e).is_empty() {
                return Err(format!("{} refused for {:?} without saying why", name, s));
            }
            Ok(())
        }
    }
}

macro_rules! texts {
    () => {
        |x| {
            let a: &str = x.as_ref();
            let b: &str = x.into();
            let c: &str = (*x).into();
            (a.to_string(), b.to_string(), c.to_string(), format!("{}", x))
        }
    };
}

pub fn names(s: &str, ctx: &mut Ctx) -> R {
    ctx.trace(7);
    guarded(|| -> R {
        one("Currency", s, refm::valid_currency(s), Currency::try_from(s), texts!())?;
        one("AccountName", s, refm::valid_account_name(s), AccountName::try_from(s), texts!())?;
        one("AccountTypeName", s, refm::valid_account_type_name(s), AccountTypeName::try_from(s), texts!())?;
        one("Subaccount", s, refm::valid_subaccount(s), Subaccount::try_from(s), texts!())?;
        one("Tag", s, refm::valid_tag_or_link(s), Tag::try_from(s), texts!())?;
        one("Link", s, refm::valid_tag_or_link(s), Link::try_from(s), texts!())?;
        one("Key", s, refm::valid_key(s), Key::try_from(s), texts!())
    })
    .and_then(|r| r)
    .map_err(|e| if e.starts_with("panic") { format!("{} for {:?}", e, s) } else { e })?;
    let v = [
        refm::valid_currency(s), refm::valid_account_name(s), refm::valid_account_type_name(s), refm::valid_subaccount(s), refm::valid_tag_or_link(s), refm::valid_key(s),
    ];
    ctx.state(&(v, s.chars().count(), s.len()));
    ctx.outcome(&format!("currency={} name={} type={} subaccount={} tag/link={} key={}", v[0], v[1], v[2], v[3], v[4], v[5]));
    ctx.sample(|| format!("{:?} -> {:?}", s, v));
    Ok(())
}

const CLASSES: [&str; 26] = [
    "A", "Z", "a", "z", "0", "9", "-", "_", "/", ".", "'", ":", " ", "#", "É", "é", "ǅ", "ʰ", "日", "ª", "٢", "Ⅷ", "²", "€", "😱", "\u{301}",
];

pub fn c16(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(words_family("classes", "words over all character classes", &[("", "")], &CLASSES, t.pick(4, 5), "", names));
    let ascii: Vec<String> = (0..128u8).map(|b| (b as char).to_string()).collect();
    let ascii: Vec<&str> = ascii.iter().map(|s| s.as_str()).collect();
    v.push(words_family("ascii", "words over ASCII, bare and after or before a valid part", &[("", ""), ("A", ""), ("a", ""), ("A1", "Z"), ("a", "9"), ("Aé", "1")], &ascii, 2, "", names));
    if t == Tier::Thorough {
        v.push(words_family("ascii-3", "words over ASCII", &[("", "")], &ascii, 3, "", names));
    }
    let cur = ["A", "B", "1", "'", ".", "_", "-", "/", "a", "é"];
    v.push(words_family("currencies", "words over the characters of currencies", &[("", ""), ("A12345678901234567890", "Z")], &cur, t.pick(5, 6), "", names));
    let acc = ["A", "1", "a", "-", ":", "é", "É", "日", "_", "Ⅷ"];
    v.push(words_family("subaccounts", "words over the characters of accounts", &[("", ""), ("Bank:", ":X")], &acc, t.pick(5, 6), "", names));
    // flag letters: every character there is
    v.push(family("flag-letters", "every Unicode scalar value, by blocks of 4096", 0x110000 / 4096, |i, ctx| {
        for c in (i * 4096)..((i + 1) * 4096) {
            let Some(c) = char::from_u32(c as u32) else { continue };
            ctx.trace(1);
            let r = FlagLetter::try_from(c);
            if r.is_ok() != c.is_ascii_uppercase() {
                return Err(format!("flag letter {:?}: {:?}", c, r));
            }
            match r {
                Ok(l) => {
                    if l.char() != c {
                        return Err(format!("flag letter {:?} gives back {:?}", c, l.char()));
                    }
                    ctx.state(&c);
                }
                Err(e) => {
                    if !format!("{}", e).contains(c) && format!("{}", e).is_empty() {
                        return Err(format!("flag letter {:?} refused without saying why", c));
                    }
                }
            }
        }
        ctx.outcome("block done");
        Ok(())
    }));
    // every Unicode scalar value in every position of a name: nothing panics, and what is accepted is given back
    v.push(family("all-characters", "every Unicode scalar value as first, middle and last character of every kind of name, by blocks of 256", 0x110000 / 256, |i, ctx| {
        for c in (i * 256)..((i + 1) * 256) {
            let Some(c) = char::from_u32(c as u32) else { continue };
            for s in [format!("{}", c), format!("A{}Z", c), format!("A{}", c), format!("a{}", c), format!("{}A", c)] {
                ctx.trace(7);
                let s = s.as_str();
                guarded(|| -> R {
                    macro_rules! keep {
                        ($t:ident) => {
                            if let Ok(x) = $t::try_from(s) {
                                let a: &str = x.as_ref();
                                if a != s || !c.is_ascii() && !c.is_alphanumeric() {
                                    return Err(format!("{} from {:?}", stringify!($t), s));
                                }
                            }
                        };
                    }
                    keep!(Currency);
                    keep!(AccountName);
                    keep!(AccountTypeName);
                    keep!(Subaccount);
                    keep!(Tag);
                    keep!(Link);
                    keep!(Key);
                    if Currency::try_from(s).is_ok() && !s.is_ascii() {
                        return Err(format!("Currency from {:?}", s));
                    }
                    Ok(())
                })
                .and_then(|r| r)
                .map_err(|e| format!("{}: {:?}", e, s))?;
            }
            ctx.state(&(c.is_alphanumeric(), c.is_ascii(), c.len_utf8()));
        }
        Ok(())
    }));
    // long names
    v.push(family("lengths", "valid and nearly valid names of every length 1..=300", 300, |i, ctx| {
        let n = i as usize;
        for s in ["A".repeat(n), "a".repeat(n), "1".repeat(n), format!("A{}", "é".repeat(n)), format!("A{}", "-".repeat(n)), format!("A{}Z", ".".repeat(n)), format!("A{}9", "'".repeat(n)), format!("/{}Z", "_".repeat(n)), format!("A{}", ":B".repeat(n)), format!("A{}:", ":B".repeat(n)), format!("a{}", "-".repeat(n)), format!("日{}", "本".repeat(n)), format!("{}€", "A".repeat(n)), format!("A{}", "/".repeat(n))] {
            names(&s, ctx)?;
        }
        Ok(())
    }));
    // one character of each class at each place of a long name
    let ns: Vec<usize> = (1..=t.pick(140usize, 300)).chain([200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025]).collect();
    v.push(family("odd one out", "names of 1..=140 and up to 1025 characters, all alike but for one of any class at any place", ns.len() as u64, move |i, ctx| {
        let n = ns[i as usize];
        for (first, rest) in [("A", "A"), ("a", "b"), ("A", "a"), ("É", "日"), ("A", ":B")] {
            for at in 0..=n {
                if n > 300 && at % 16 > 1 && at + 2 < n {
                    continue;
                }
                for c in CLASSES {
                    let s = format!("{}{}{}{}", first, rest.repeat(at), c, rest.repeat(n - at));
                    names(&s, ctx)?;
                }
            }
        }
        Ok(())
    }));
    // names in the text: accepted there exactly if valid, and returned unchanged
    let ctxs = [
        ("2024-01-02 commodity ", "\n"), ("2024-01-02 close Assets:", "\n"), ("2024-01-02 close ", ":A\n"), ("2024-01-02 * #", "\n"), ("2024-01-02 * ^", "\n"), ("2024-01-02 *\n  ", ": 1\n"), ("2024-01-02 '", "\n"), ("2024-01-02 *\n  Assets:A:", " 1 USD\n"),
        ("option \"conversion_currency\" \"", "\"\n"), ("option \"name_assets\" \"", "\"\n"), ("option \"account_rounding\" \"", "\"\n"), ("pushtag #", "\n"), ("2024-01-02 open Assets:A USD,", "\n"),
    ];
    v.push(words_family("in-text", "names in declarations", &ctxs, &["A", "z", "0", "-", "_", "/", ".", "'", ":", "é", "É", "日", "Ⅷ", "²", "٢", "ǅ", "ʰ", "€", "\u{301}"], t.pick(3, 4), "", agree));
    v
}

// ---------------------------------------------------------------- C18

/// agreement, and every duplicate is named by an error that lies within its declaration
pub fn duplicates(text: &str, ctx: &mut Ctx) -> R {
    let exp = refm::expect(text);
    let out = guarded(|| parse_text(text)).map_err(|e| format!("{}: {:?}", e, text))?;
    note(ctx, text, &exp);
    refm::compare(text, &exp, &out)?;
    if exp.unknown {
        return Ok(());
    }
    // which declarations have duplicates, and of what
    let mut st = refm::PState::default();
    let parsed = refm::parse_source(text, 0, None, &mut st);
    let mut clean: Vec<usize> = (0..parsed.blocks.len()).collect();
    let shadowed = parsed.shadowed();
    for (b, p) in &parsed.problems {
        clean.retain(|x| x != b);
        let Some(dup) = p.strip_prefix("duplicate ") else { continue };
        // a declaration that is also malformed may be reported as that only
        if parsed.problems.iter().any(|(c, q)| c == b && q == "syntax") || shadowed[*b] {
            continue;
        }
        let (s, e, _) = parsed.blocks[*b];
        let (what, name) = dup.split_once(' ').unwrap_or((dup, ""));
        let said = what.replace('_', "-");
        let found = out.errors.iter().any(|m| {
            let t = format!("{} {}", m.message, m.reason);
            m.span.1 >= s && m.span.2 <= e && t.contains("duplicate") && t.contains(&said) && t.contains(name)
        });
        if !found {
            return Err(format!("no error within {}..{} names the {}: {:?} {:?}", s, e, p, out.errors.iter().map(|m| (&m.message, &m.reason, m.span)).collect::<Vec<_>>(), text));
        }
    }
    for b in clean {
        let (s, e, _) = parsed.blocks[b];
        if let Some(m) = out.errors.iter().find(|m| m.span.1 >= s && m.span.1 < e && format!("{} {}", m.message, m.reason).contains("duplicate")) {
            return Err(format!("spurious {:?} {:?} at {:?}: {:?}", m.message, m.reason, m.span, text));
        }
    }
    Ok(())
}

pub fn c18(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // headers of each kind x metadata lines
    let heads: Vec<String> = ["2024-01-02 *", "2024-01-02 txn \"p\" \"n\"", "2024-01-02 close Assets:A", "2024-01-02 open Assets:A USD", "2024-01-02 balance Assets:A 1 USD", "2024-01-02 price USD 1 GBP", "2024-01-02 commodity USD", "2024-01-02 pad Assets:A Equity:B", "2024-01-02 document Assets:A \"p\"", "2024-01-02 note Assets:A \"c\"", "2024-01-02 event \"a\" \"b\"", "2024-01-02 query \"a\" \"b\""].iter().map(|s| s.to_string()).collect();
    let inline = ["", " #t", " ^t", " #u", " #t #u", " #t #t", " ^t ^t", " #t ^t", " ^t #t", " ^t ^u #t", " #u #t #u", " #t #t #t"];
    let lines = ["", "  #t\n", "  ^t\n", "  #u\n", "  kk: 1\n", "  kk: 2\n", "  mm: #t\n", "  kk: ^t\n"];
    let two = cross(&[strs(&lines), strs(&lines), strs(&lines[..t.pick(5, 8)])]);
    v.push(grid_family_("placements", "kinds of directive x inline tags and links x up to three metadata lines", vec![heads.clone(), strs(&inline), strs(&["\n"]), two], duplicates));
    let mut hs: Vec<(String, String)> = heads.iter().map(|h| (format!("{}\n", h), "2024-01-03 * #t ^t\n  kk: 1\n".to_string())).collect();
    hs.push(("2024-01-02 custom \"x\" 1\n".into(), String::new()));
    v.push(words_family("metadata-lines", "metadata lines", &refs(&hs), &["  #t\n", "  ^t\n", "  #u\n", "  kk: 1\n", "  kk:\n", "  mm: 1\n", "\n", "  ; c\n"], t.pick(3, 4), "", duplicates));
    // transactions with postings
    let body = ["  #t\n", "  ^t\n", "  kk: 1\n", "  #u\n", "  Assets:A 1 USD\n", "    kk: 2\n", "    #t\n", "    mm: 1\n"];
    v.push(words_family("postings", "metadata of a transaction and its postings", &[("2024-01-02 *\n", ""), ("2024-01-02 * #t\n", ""), ("2024-01-02 * \"n\" #u ^t\n", "2024-01-03 close Assets:A #t\n")], &body, t.pick(5, 6), "", duplicates));
    // currencies of an open
    v.push(words_family("currencies", "currency lists", &[("2024-01-02 open Assets:A ", "\n"), ("2024-01-02 open Assets:A USD,", " \"FIFO\" #t\n")], &["USD", "GBP", "EUR", "A.B", ",", "AB"], t.pick(6, 7), "", duplicates));
    let list = ["USD", "GBP", "EUR", "USDX"];
    let mut texts = vec![];
    for n in 2..=t.pick(5u32, 6) {
        for w in 0..4u64.pow(n) {
            let cs: Vec<&str> = digits(w, &vec![4; n as usize]).iter().map(|d| list[*d]).collect();
            texts.push(format!("2024-01-02 open Assets:A {}\n", cs.join(",")));
        }
    }
    v.push(texts_family("currency-lists", "all currency lists of up to 5 over 4 currencies", texts, duplicates));
    // cost specifications
    let parts = ["1", "2 USD", "# 3", "1 # 2", "1 # 2 GBP", "# 4 USD", "USD", "GBP", "2024-01-02", "2024-01-03", "\"a\"", "\"b\"", "*"];
    let mut texts = vec![];
    for n in 1..=t.pick(4u32, 5) {
        for w in 0..13u64.pow(n) {
            let cs: Vec<&str> = digits(w, &vec![13; n as usize]).iter().map(|d| parts[*d]).collect();
            texts.push(format!("2024-01-02 *\n  Assets:A 1 X {{{}}}\n", cs.join(", ")));
        }
    }
    v.push(texts_family("cost-parts", "all cost specifications of up to 4 (5) of 13 parts", texts, duplicates));
    // far apart among many others, near names that are no duplicates
    let mut texts = vec![];
    let max = t.pick(9usize, 14);
    for n in 2..=max {
        for i in 0..n {
            for j in i..n {
                // the j-th is the same as the i-th; for i = j, none is
                let name = |k: usize| if k == j { i } else { k };
                let list = |f: &dyn Fn(usize) -> String| (0..n).map(|k| f(name(k))).collect::<String>();
                let inline = |c: char| list(&|k| format!(" {}n{}", c, k));
                texts.push(format!("2024-01-02 *{}\n", inline('#')));
                texts.push(format!("2024-01-02 open Assets:A{}\n", inline('^')));
                texts.push(format!("2024-01-02 close Assets:A\n{}", list(&|k| format!("  #n{}\n", k))));
                texts.push(format!("2024-01-02 *\n{}  Assets:A\n", list(&|k| format!("  ^n{}\n", k))));
                texts.push(format!("2024-01-02 *\n{}  Assets:A\n", list(&|k| format!("  kk{}: {}\n", k, k))));
                texts.push(format!("2024-01-02 *\n  Assets:A\n{}  Assets:B\n", list(&|k| format!("    kk{}:\n", k))));
                texts.push(format!("2024-01-02 *\n  Assets:A\n{}  Assets:B\n", list(&|k| format!("    #n{}\n", k))));
                texts.push(format!("2024-01-02 *\n  Assets:B\n  Assets:A\n{}", list(&|k| format!("    ^n{}\n", k))));
                texts.push(format!("2024-01-02 open Assets:A {}\n", list(&|k| format!(",C{}", k)).trim_start_matches(',')));
                // in the header and under it
                texts.push(format!("2024-01-02 note Assets:A \"\"{}\n{}", (0..i).map(|k| format!(" #n{}", name(k))).collect::<String>(), (i..n).map(|k| format!("  #n{}\n", name(k))).collect::<String>()));
                texts.push(format!("2024-01-02 *{}\n{}", (0..=i).map(|k| format!(" ^n{}", name(k))).collect::<String>(), (i + 1..n).map(|k| format!("  ^n{}\n", name(k))).collect::<String>()));
            }
        }
    }
    for n in sizes(t, max).into_iter().filter(|n| *n > max && *n < 1200) {
        for (i, j) in [(0, n - 1), (n / 2, n - 1), (0, n / 2), (n - 2, n - 1), (0, 1), (n - 1, n - 1)] {
            let name = |k: usize| if k == j { i } else { k };
            let list = |f: &dyn Fn(usize) -> String| (0..n).map(|k| f(name(k))).collect::<String>();
            texts.push(format!("2024-01-02 *{}\n", list(&|k| format!(" #n{}", k))));
            texts.push(format!("2024-01-02 close Assets:A{}\n", list(&|k| format!(" ^n{}", k))));
            texts.push(format!("2024-01-02 *\n{}  Assets:A\n", list(&|k| format!("  kk{}: {}\n", k, k))));
            texts.push(format!("2024-01-02 *\n  Assets:A\n{}  Assets:B\n", list(&|k| format!("    #n{}\n", k))));
            texts.push(format!("2024-01-02 *\n  Assets:A\n{}  Assets:B\n", list(&|k| format!("    ^n{}\n", k))));
            texts.push(format!("2024-01-02 open Assets:A {}\n", list(&|k| format!(",C{}", k)).trim_start_matches(',')));
        }
    }
    v.push(texts_family("far", format!("2..={} (and up to 1100) tags, links, keys, currencies of which any two, or none, are the same, in the header, below it or both, and on postings", max), texts, duplicates));
    let near = ["t", "T", "tt", "t1", "t-", "t_", "t.", "t/", "tT", "Tt"];
    let mut texts = vec![];
    for a in near {
        for b in near {
            for (x, y) in [(" #", " #"), (" ^", " ^"), (" #", " ^"), (" #", "\n  #"), (" ^", "\n  ^"), ("\n  #", "\n  #"), ("\n  ^", "\n  ^"), ("\n  Assets:A\n    #", "\n    #"), ("\n  Assets:A\n    ^", "\n    ^"), ("\n  #", "\n  Assets:A\n    #"), ("\n  Assets:A\n    #", "\n  Assets:B\n    #")] {
                texts.push(format!("2024-01-02 *{}{}{}{}\n", x, a, y, b));
            }
        }
    }
    for a in ["kk", "kK", "kkk", "k-k", "k_k", "k1", "open", "opens"] {
        for b in ["kk", "kK", "kkk", "k-k", "k_k", "k1", "open", "opens"] {
            for (x, y) in [("2024-01-02 *\n  ", "  "), ("2024-01-02 close Assets:A\n  ", "  "), ("2024-01-02 *\n  Assets:A\n    ", "    "), ("2024-01-02 *\n  ", "  Assets:A\n    "), ("2024-01-02 *\n  Assets:A\n    ", "  Assets:B\n    ")] {
                texts.push(format!("{}{}: 1\n{}{}: 1\n", x, a, y, b));
            }
        }
    }
    for a in ["USD", "US", "USDX", "U.D", "U-D", "U'D", "U_D", "USD1", "/USD"] {
        for b in ["USD", "US", "USDX", "U.D", "U-D", "U'D", "U_D", "USD1", "/USD"] {
            texts.push(format!("2024-01-02 open Assets:A {},{}\n", a, b));
            texts.push(format!("2024-01-02 *\n  Assets:A 1 X {{{}, {}}}\n", a, b));
            texts.push(format!("2024-01-02 *\n  Assets:A 1 X {{1 {}, {}}}\n", a, b));
        }
    }
    v.push(texts_family("near-names", "all pairs of nearly the same names in every pair of places", texts, duplicates));
    // several directives: no confusion between owners
    let ds = ["2024-01-02 * #t\n", "2024-01-02 * #t ^t\n  kk: 1\n", "2024-01-02 close Assets:A\n  #t\n  kk: 1\n", "2024-01-02 * #t #t\n", "2024-01-02 *\n  kk: 1\n  kk: 2\n", "2024-01-02 *\n  Assets:A 1 USD\n    kk: 1\n    #t\n  Assets:B\n    kk: 1\n    #t\n", "2024-01-02 note Assets:A \"x\" ^t\n  ^t\n", "2024-01-02 open Assets:A USD,USD\n", "2024-01-02 *\n  Assets:A 1 X {1, 1}\n"];
    v.push(words_family("files", "sequences of directives with and without duplicates", &[("", "")], &ds, t.pick(4, 5), "", duplicates));
    // pushed tags and keys are no duplicates of the directive's own
    v.push(words_family("pushed", "pushed tags and metadata and own ones", &[("pushtag #t\npushmeta kk: 9\n", "popmeta kk:\npoptag #t\n")], &["2024-01-02 * #t\n", "2024-01-02 *\n  kk: 1\n", "2024-01-02 * #t\n  #t\n", "2024-01-02 *\n  kk: 1\n  kk: 1\n", "pushtag #t\n", "poptag #t\n", "2024-01-02 close Assets:A\n"], t.pick(4, 5), "", duplicates));
    v
}

// ---------------------------------------------------------------- C20

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// numbers are equal if their values are
fn key_of(c: &Canon) -> Vec<(String, String)> {
    c.values_only()
}

fn element_name(d: &Directive) -> &'static str {
    match kind(d) {
        "transaction" => "transaction",
        k => k,
    }
}

/// structural agreement of all accessors of one directive
fn consistent(d: &Spanned<Directive>) -> R {
    let c = canon(d);
    let check_meta = |m: &Metadata, pre: &str| -> R {
        let keys: Vec<String> = m.key_values().map(|(k, _)| k.item().as_ref().to_string()).collect();
        let (nk, nt, nl) = (m.key_values().len(), m.tags().len(), m.links().len());
        if keys.len() != nk || m.tags().count() != nt || m.links().count() != nl {
            return Err("lengths and iteration disagree".into());
        }
        if m.is_empty() != (nk == 0 && nt == 0 && nl == 0) {
            return Err(format!("is_empty is {} with {} keys, {} tags, {} links", m.is_empty(), nk, nt, nl));
        }
        for (k, val) in m.key_values() {
            let found = m.key_value(*k.item());
            match found {
                Some(x) if std::ptr::eq(x, val) || (x.item() == val.item() && x.span() == val.span()) => (),
                _ => return Err(format!("looking up {}{} does not find what iterating finds", pre, k.item())),
            }
        }
        for absent in ["kk", "zz", "k", "mm", "open", "k1", "nokey", "kkk"] {
            let k = Key::try_from(absent).map_err(|e| e.to_string())?;
            if m.key_value(k).is_some() != keys.iter().any(|x| x == absent) {
                return Err(format!("looking up {} in {:?} gives {:?}", absent, keys, m.key_value(k)));
            }
        }
        Ok(())
    };
    check_meta(d.metadata(), "")?;
    let (mut own, boxed) = (d.item().clone(), Box::new(d.item().clone()));
    let by_mut = ElementType::element_type(&&mut own).to_string();
    if by_mut != element_name(d.item()) || ElementType::element_type(&boxed) != by_mut || ElementType::element_type(&&&own) != by_mut {
        return Err(format!("a {} says it is something else through a reference or a box", kind(d.item())));
    }
    if d.element_type() != element_name(d.item()) {
        return Err(format!("a {} says it is a {:?}", kind(d.item()), d.element_type()));
    }
    if let DirectiveVariant::Transaction(t) = d.variant() {
        let (n, it) = (t.postings().len(), t.postings().count());
        if n != it {
            return Err(format!("{} postings, {} iterated", n, it));
        }
        for p in t.postings() {
            check_meta(p.metadata(), "posting ")?;
        }
    }
    if let DirectiveVariant::Open(o) = d.variant() {
        if o.currencies().len() != o.currencies().count() {
            return Err("currencies: len and iteration disagree".into());
        }
    }
    if let DirectiveVariant::Custom(o) = d.variant() {
        if o.values().len() != o.values().count() {
            return Err("values: len and iteration disagree".into());
        }
    }
    // numbers compare with plain numbers by value
    let mut numbers: Vec<&Spanned<ExprValue>> = vec![];
    match d.variant() {
        DirectiveVariant::Transaction(t) => {
            for p in t.postings() {
                numbers.extend(p.amount());
                numbers.extend(p.cost_spec().and_then(|c| c.per_unit()));
                numbers.extend(p.cost_spec().and_then(|c| c.total()));
                if p.amount().item().map(|x| x.value()) != p.amount().map(|x| x.item().value()) || p.currency().item() != p.currency().map(|x| x.item()) || p.flag().item() != p.flag().map(|x| x.item()) {
                    return Err("an optional item is not the item".into());
                }
            }
        }
        DirectiveVariant::Balance(b) => numbers.push(b.atol().amount().number()),
        DirectiveVariant::Price(x) => numbers.push(x.amount().number()),
        _ => (),
    }
    for n in numbers {
        let v = n.item().value();
        let mut wider = v;
        wider.rescale((v.scale() + 1).min(28));
        let others = [rust_decimal::Decimal::ZERO, rust_decimal::Decimal::ONE, -v, v.trunc(), v.abs()];
        if n.item() != &v || n.item() != &wider || others.iter().any(|o| (n.item() == o) != (v == *o)) {
            return Err(format!("{} compared with plain numbers", n));
        }
        let again = ExprValue::from(n.item().expr().clone());
        if again.value() != v || again.value().scale() != v.scale() || &again != n.item() {
            return Err(format!("{} evaluated again is {}", n, again.value()));
        }
    }
    // what is derived from a spanned element keeps its place
    let (r, m, i) = (d.as_ref(), d.map(|x| x.date().item().clone()), d.clone().map_into(|x| x.date().item().clone()));
    if r.span() != d.span() || m.span() != d.span() || i.span() != d.span() || !std::ptr::eq(*r.item(), d.item()) || m.item() != d.date().item() || i.item() != d.date().item() || spanned(*m.item(), *d.span()) != m {
        return Err("map or as_ref of the spanned directive".into());
    }
    let mut ok = derived(d.date());
    for t in d.metadata().tags() {
        ok &= derived(t);
    }
    for t in d.metadata().links() {
        ok &= derived(t);
    }
    for (k, x) in d.metadata().key_values() {
        ok &= derived(k) && derived(x);
    }
    if let DirectiveVariant::Transaction(x) = d.variant() {
        ok &= derived(x.flag());
        for p in x.postings() {
            ok &= derived(p) && derived(p.account());
            for (k, x) in p.metadata().key_values() {
                ok &= derived(k) && derived(x);
            }
        }
    }
    if !ok {
        return Err("map, map_into or as_ref of a spanned element is elsewhere or something else".into());
    }
    if &d.clone() != d || canon(&d.clone()) != c {
        return Err("a clone differs".into());
    }
    Ok(())
}

/// what is made of a spanned element has its place and its contents
fn derived<T: Clone + PartialEq>(s: &Spanned<T>) -> bool {
    let (r, m, i) = (s.as_ref(), s.map(|x| x.clone()), s.clone().map_into(|x| x));
    r.span() == s.span() && m.span() == s.span() && i.span() == s.span() && *r.item() == s.item() && m.item() == s.item() && i.item() == s.item() && &m == s
}

fn pair(a: &str, b: &str, ctx: &mut Ctx) -> R {
    let what = || format!("{:?} / {:?}", a, b);
    guarded(|| -> R {
        // the same kind of thing read at two places of two sources
        let ta = a.to_string();
        let tb = format!("; é comment first\n\n{}", b);
        let (sa, sb) = (BeancountSources::from(ta.as_str()), BeancountSources::from(tb.as_str()));
        let (pa, pb) = (BeancountParser::new(&sa), BeancountParser::new(&sb));
        let (Ok(ra), Ok(rb)) = (pa.parse(), pb.parse()) else { return Err(format!("refused: {}", what())) };
        let (da, db) = (&ra.directives[0], &rb.directives[0]);
        let (ca, cb) = (canon(da), canon(db));
        let same = key_of(&ca) == key_of(&cb);
        ctx.trace(2);
        ctx.state(&(key_of(&ca), key_of(&cb)));
        ctx.outcome(if same { "equal" } else { "different" });
        if (da == db) != same || (db == da) != same || (da != db) == same {
            return Err(format!("directives {}: {}", if same { "with equal contents are not equal" } else { "with different contents are equal" }, what()));
        }
        if (da.item() == db.item()) != same || (da.variant() == db.variant() && da.metadata() == db.metadata() && da.date() == db.date()) != same {
            return Err(format!("directive parts disagree with the whole: {}", what()));
        }
        consistent(da).map_err(|e| format!("{}: {}", e, what()))?;
        consistent(db).map_err(|e| format!("{}: {}", e, what()))?;
        // elements
        let names = |d: &Directive| -> Vec<(String, u64, String)> {
            let mut v = vec![];
            for t in d.metadata().tags() {
                v.push((format!("tag {}", t.item().as_ref()), hash(t), format!("{}", t)));
            }
            for t in d.metadata().links() {
                v.push((format!("link {}", t.item().as_ref()), hash(t), format!("{}", t)));
            }
            for (t, _) in d.metadata().key_values() {
                v.push((format!("key {}", t.item().as_ref()), hash(t), format!("{}", t)));
            }
            if let DirectiveVariant::Open(o) = d.variant() {
                for c in o.currencies() {
                    v.push((format!("currency {}", c.item().as_ref()), hash(c), format!("{}", c)));
                }
            }
            v
        };
        for x in names(da.item()) {
            for y in names(db.item()) {
                if (x.0 == y.0) && x.1 != y.1 {
                    return Err(format!("{} hashes differently: {}", x.0, what()));
                }
            }
        }
        if let (DirectiveVariant::Transaction(x), DirectiveVariant::Transaction(y)) = (da.variant(), db.variant()) {
            for (i, p) in x.postings().enumerate() {
                for (j, q) in y.postings().enumerate() {
                    let strip = |c: &Canon, i: usize| -> Vec<(String, String)> {
                        let pre = format!("p{}.", i);
                        c.fields.iter().filter_map(|f| f.key.strip_prefix(&pre).map(|k| (k.to_string(), f.val.clone()))).collect()
                    };
                    let same = strip(&ca, i) == strip(&cb, j);
                    if (p == q) != same {
                        return Err(format!("postings {} and {}: equal={} contents equal={}: {}", i, j, p == q, same, what()));
                    }
                }
            }
        }
        ctx.sample(what);
        Ok(())
    })
    .and_then(|r| r)
    .map_err(|e| if e.starts_with("panic") { format!("{}: {}", e, what()) } else { e })
}

fn pairs_family(name: &str, what: &str, texts: Vec<String>) -> Family {
    let n = texts.len() as u64;
    family(name, format!("all {}² ordered pairs of {}", n, what), n * n, move |i, ctx| pair(&texts[(i / n) as usize], &texts[(i % n) as usize], ctx))
}

fn consistent_text(text: &str, ctx: &mut Ctx) -> R {
    guarded(|| -> R {
        let sources = BeancountSources::from(text);
        let parser = BeancountParser::new(&sources);
        ctx.trace(1);
        match parser.parse() {
            Ok(r) => {
                for d in &r.directives {
                    ctx.state(&canon(d).values_only());
                    consistent(d).map_err(|e| format!("{}: {:?}", e, text))?;
                }
                ctx.outcome("consistent");
            }
            Err(_) => ctx.outcome("refused"),
        }
        Ok(())
    })
    .and_then(|r| r)
    .map_err(|e| if e.starts_with("panic") { format!("{}: {:?}", e, text) } else { e })
}

/// ordering, equality and hash of names agree with those of their text
fn name_pair(a: &str, b: &str, ctx: &mut Ctx) -> R {
    ctx.trace(1);
    ctx.outcome(if a == b { "same" } else { "other" });
    ctx.state(&(a == b, a.len(), b.len()));
    macro_rules! ordered {
        ($t:ident) => {
            if let (Ok(x), Ok(y)) = ($t::try_from(a), $t::try_from(b)) {
                if (x == y) != (a == b) || x.cmp(&y) != a.cmp(b) || x.partial_cmp(&y) != Some(a.cmp(b)) {
                    return Err(format!("{}: comparison of {:?} and {:?}", stringify!($t), a, b));
                }
            }
        };
    }
    macro_rules! hashed {
        ($t:ident) => {
            if let (Ok(x), Ok(y)) = ($t::try_from(a), $t::try_from(b)) {
                if (x == y) != (a == b) || (a == b && hash(&x) != hash(&y)) {
                    return Err(format!("{}: equality or hash of {:?} and {:?}", stringify!($t), a, b));
                }
                let (sx, sy) = (
                    spanned(x, Span { source: 0, start: 1, end: 2 }),
                    spanned(y, Span { source: 3, start: 4, end: 9 }),
                );
                if (sx == sy) != (a == b) || (a == b && hash(&sx) != hash(&sy)) || hash(&sx) != hash(&x) {
                    return Err(format!("Spanned {}: equality or hash of {:?} and {:?}", stringify!($t), a, b));
                }
            }
        };
    }
    macro_rules! text {
        ($t:ident) => {
            if let Ok(x) = $t::try_from(a) {
                if (x == b) != (a == b) {
                    return Err(format!("{} {:?} compared with text {:?}", stringify!($t), a, b));
                }
                for c in [format!("#{}", b), format!("^{}", b), format!("{}:", b), format!(" {}", b), format!("{} ", b), format!("\"{}\"", b)] {
                    if x == c.as_str() {
                        return Err(format!("{} {:?} equals the text {:?}", stringify!($t), a, c));
                    }
                }
            }
        };
    }
    ordered!(Currency);
    ordered!(AccountName);
    ordered!(AccountTypeName);
    ordered!(Subaccount);
    ordered!(Key);
    hashed!(Currency);
    hashed!(AccountTypeName);
    hashed!(Subaccount);
    hashed!(Key);
    hashed!(Tag);
    hashed!(Link);
    text!(Currency);
    text!(AccountName);
    text!(AccountTypeName);
    text!(Tag);
    text!(Link);
    text!(Key);
    Ok(())
}

pub fn c20(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // directives of every kind
    let mut ds: Vec<String> = gen::headers().iter().map(|h| format!("{}\n", h)).collect();
    for h in gen::headers().iter().step_by(t.pick(3, 1)) {
        if !h.contains(" custom ") {
            ds.push(format!("{} #t\n", h));
            ds.push(format!("{} ^t\n  kk: \"v\"\n", h));
        } else {
            ds.push(format!("{}\n  #t\n", h));
        }
    }
    for h in gen::txn_headers(&["*", "!", "txn", "'A"]) {
        ds.push(format!("{}\n", h));
    }
    ds.push("2024-01-03 close Assets:A\n".into());
    ds.push("2024-01-02 open Assets:A GBP,USD\n".into());
    v.push(pairs_family("directives", "directives of all kinds", ds));
    // what is left out differs from what is given as nothing
    let mut ds = vec![];
    for (a, b, xs) in [
        ("2024-01-02 balance Assets:A 1", " USD\n", vec!["", " ~ 0", " ~ 1", " ~ 2"]),
        ("2024-01-02 *", "\n", vec!["", " \"\"", " \"\" \"\"", " \"\" \"n\"", " \"n\"", " \"n\" \"\"", " \" \"", " \"null\"", " #t", " \"\" #t"]),
        ("2024-01-02 open Assets:A", "\n", vec!["", " USD", " \"\"", " \"STRICT\"", " USD \"STRICT\"", " USD \"NONE\"", " \"NONE\"", " USD,GBP", " GBP,USD"]),
        ("2024-01-02 custom \"k\"", "\n", vec!["", " \"\"", " 0", " FALSE", " 0 USD", " \"0\"", " 0 0", " \"\" \"\"", " TRUE"]),
        ("2024-01-02 *\n  Assets:A", "\n", vec!["", " 0", " 0 USD", " USD", " -0 USD", " 0 USD {}", " 0 USD @", " 0 USD @@", " 0 USD {0 USD}", " 0 USD {# 0 USD}", " 0 USD {0 # 0 USD}", " 0 USD @ 0 USD", " 0 USD @@ 0 USD", " 0 USD {\"\"}", " 0 USD {USD}", " 0 USD @ USD", " 0 USD @ 0", " 0 USD {0}", " 0 USD {*}"]),
        ("2024-01-02 close Assets:A\n", "", vec!["", "  kk:\n", "  kk: \"\"\n", "  kk: 0\n", "  kk: 0 USD\n", "  kk: FALSE\n", "  kk: NULL\n"]),
        ("2024-01-02 document Assets:A \"/d\"", "\n", vec!["", " #t", " ^t", " #t ^t", "\n  kk:"]),
    ] {
        ds.extend(xs.into_iter().map(|x| format!("{}{}{}", a, x, b)).filter(|s| refm::expect(s).ok));
    }
    v.push(pairs_family("nothing and zero", "directives with an optional part left out, empty or zero", ds));
    // metadata: order must not matter, everything else must
    let meta: Vec<String> = ["", "  kk: 1\n", "  kk: 2\n", "  kk: 1 USD\n", "  kk: 1 GBP\n", "  kk: \"1\"\n", "  kk: TRUE\n", "  kk: FALSE\n", "  kk: NULL\n", "  kk:\n", "  kk: #t\n", "  kk: ^t\n", "  kk: 2024-01-01\n", "  kk: USD\n", "  kk: Assets:A\n", "  kk: Assets:B\n", "  kk: Income:A\n", "  mm: 1\n", "  kk: 1\n  mm: 2\n", "  mm: 2\n  kk: 1\n", "  kk: 2\n  mm: 1\n", "  #t\n", "  ^t\n", "  #u\n", "  #t\n  #u\n", "  #u\n  #t\n", "  ^t\n  ^u\n", "  ^u\n  ^t\n", "  #t\n  ^t\n", "  #t\n  kk: 1\n", "  kk: 1\n  #t\n", "  kk: 1+1\n", "  kk: 1*1\n", "  kk: (1)\n", "  kk: -1\n", "  kk: 1-0\n"].iter().map(|s| s.to_string()).collect();
    let mut owners = vec![];
    for m in &meta {
        owners.push(format!("2024-01-02 close Assets:A\n{}", m));
        owners.push(format!("2024-01-02 *\n  Assets:A 1 USD\n{}", m));
    }
    v.push(pairs_family("metadata", "directives and postings with metadata", owners));
    // postings
    let mut ps = vec![];
    for f in ["", "! "] {
        for a in ["", " 1 USD", " 2 USD", " 1 GBP", " 1", " USD"] {
            for c in ["", " {}", " {1 USD}", " {# 1 USD}", " {1 # 1 USD}", " {2024-01-01}", " {\"l\"}", " {*}", " {1 USD, *}", " {USD, 1}"] {
                for p in ["", " @", " @ 1 USD", " @@ 1 USD", " @ 1", " @@ 1", " @ USD"].iter().take(t.pick(4, 7)) {
                    ps.push(format!("2024-01-02 *\n  {}Assets:A{}{}{}\n", f, a, c, p));
                }
            }
        }
    }
    if t == Tier::Quick {
        ps = ps.into_iter().enumerate().filter(|(i, _)| i % 2 == 0 || *i < 200).map(|x| x.1).collect();
    }
    v.push(pairs_family("postings", "transactions with one posting", ps));
    v.push(pairs_family("posting-lists", "transactions with several postings", {
        let lines = ["  Assets:A 1 USD\n", "  Assets:B\n", "    kk: 1\n", "    #t\n"];
        (0..words_count(4, 3)).map(|i| format!("2024-01-02 * \"n\"\n{}", word(i, 4).iter().map(|d| lines[*d]).collect::<String>())).collect::<Vec<_>>().into_iter().filter(|s| refm::expect(s).ok).collect()
    }));
    // expressions of the same value, and of the same parts in another order, are other expressions
    let signs = ["1", "2", "+", "-", "*", "/", "(", ")"];
    let es: Vec<String> = (0..words_count(8, t.pick(5, 6))).map(|i| format!("2024-01-02 price USD {} GBP\n", word(i, 8).iter().map(|d| signs[*d]).collect::<Vec<_>>().join(" "))).filter(|s| refm::expect(s).ok).collect();
    let es = if t == Tier::Quick { es } else { es.into_iter().step_by(2).collect() };
    v.push(pairs_family("expressions", "expressions of up to five tokens", es));
    // the same parts the other way round
    let mut ds = vec![];
    for (template, x, y) in [
        ("2024-01-02 * \"?\" \"?\"\n", "a", "b"), ("2024-01-02 pad Assets:? Assets:?\n", "A", "B"), ("2024-01-02 event \"?\" \"?\"\n", "a", "b"), ("2024-01-02 query \"?\" \"?\"\n", "a", "b"), ("2024-01-02 price ? 1 ?\n", "USD", "GBP"), ("2024-01-02 balance Assets:A ? ~ ? USD\n", "1", "2"),
        ("2024-01-02 custom \"?\" \"?\" \"?\"\n", "a", "b"), ("2024-01-02 custom \"k\" ? ? ? ?\n", "TRUE", "FALSE"), ("2024-01-02 custom \"k\" ? USD ? USD\n", "1", "2"), ("2024-01-02 *\n  Assets:A 1 USD {? # ? USD}\n", "1", "2"), ("2024-01-02 *\n  Assets:A ? USD {? GBP} @ ? GBP\n", "1", "2"),
        ("2024-01-02 *\n  Assets:A 1 ? {1 ?} @ 1 ?\n", "USD", "GBP"), ("? *\n  Assets:A 1 USD {?}\n  kk: ?\n", "2024-01-02", "2024-02-01"), ("2024-01-02 *\n  Assets:? 1 USD\n  Assets:? 2 USD\n", "A", "B"), ("2024-01-02 ?\n  ? Assets:A\n  ? Assets:A\n", "*", "!"),
        ("2024-01-02 close Assets:A #? ^?\n  kk: #?\n  mm: ^?\n", "t", "u"), ("2024-01-02 close Assets:A\n  kk: ?\n  mm: ?\n", "1", "2"), ("2024-01-02 *\n  kk: ?\n  Assets:A\n    kk: ?\n  Assets:A\n    kk: ?\n", "1", "2"), ("2024-01-02 * \"?\"\n  Assets:A 1 USD {\"?\"}\n    kk: \"?\"\n", "a", "b"),
    ] {
        let n = template.matches('?').count();
        for i in 0..1u32 << n {
            let mut k = 0;
            ds.push(template.split('?').enumerate().map(|(j, part)| {
                let mut part = part.to_string();
                if j < n {
                    part += if i >> k & 1 == 0 { x } else { y };
                    k += 1;
                }
                part
            }).collect::<String>());
        }
    }
    v.push(pairs_family("swapped", "directives with two values in every place of two to four of the same kind", ds));
    // long lists that differ in one element, or by one
    let mut jobs = vec![];
    for n in (1..=t.pick(20usize, 70)).chain([33, 65, 130]) {
        for kind in 0..7 {
            for at in (0..n).filter(|at| n <= 33 || at % 16 < 2 || *at + 1 == n) {
                for how in 0..3 {
                    jobs.push((kind, n, at, how));
                }
            }
        }
    }
    v.push(family("long lists", "1..=20 and 33, 65, 130 postings, postings' and directives' metadata, tags, links, currencies, custom values, one of which (of 65 or more: some) is changed, dropped or swapped with the next", jobs.len() as u64, move |i, ctx| {
        let (kind, n, at, how) = jobs[i as usize];
        let text = |items: Vec<usize>| -> String {
            let list = |a: &str, item: &dyn Fn(usize) -> String, sep: &str| format!("{}{}\n", a, items.iter().map(|k| item(*k)).collect::<Vec<_>>().join(sep));
            match kind {
                0 => list("2024-01-02 *\n", &|k| format!("  Assets:A{} {} USD", k, k), "\n"),
                1 => list("2024-01-02 *\n  Assets:A\n", &|k| format!("    k{}: {}", k, k), "\n"),
                2 => list("2024-01-02 close Assets:A\n", &|k| format!("  k{}: {}", k, k), "\n"),
                3 => list("2024-01-02 close Assets:A ", &|k| format!("#t{}", k), " "),
                4 => list("2024-01-02 *\n  Assets:A\n", &|k| format!("    ^t{}", k), "\n"),
                5 => list("2024-01-02 open Assets:A ", &|k| format!("C{}", k), ","),
                _ => list("2024-01-02 custom \"k\" ", &|k| format!("\"{}\"", k), " "),
            }
        };
        let a = text((1000..1000 + n).collect());
        let mut items: Vec<usize> = (1000..1000 + n).collect();
        match how {
            0 => items[at] = 2000,
            1 if n > 1 => {
                items.remove(at);
            }
            _ => items.swap(at, (at + 1) % n),
        }
        pair(&a, &text(items), ctx)
    }));
    // directives that differ in a single character
    let near: Vec<String> = [
        "2024-11-12 open Assets:Abc:Def USD,UST,UAD,GBP \"STRICT\" #tag-a #tag-b ^link-a ^link-b\n  kka: \"vvv\"\n  kkb: \"vvv\"\n",
        "2024-11-12 close Assets:Abc:Def #tag-a ^tag-a\n  kka: Assets:Abc:Def\n  kkb: UST\n  kkc: #tag\n  kkd: ^tag\n  kke: TRUE\n  kkf: 2024-11-12\n  kkg: 12.34 UST\n  kkh: 12.34\n",
        "2024-11-12 balance Assets:Abc:Def 12.34 ~ 12.34 UST #tag-a\n",
        "2024-11-12 pad Assets:Abc:Def Equity:Abc:Def ^link-a\n",
        "2024-11-12 price UST 12.34 UST\n",
        "2024-11-12 commodity UST\n",
        "2024-11-12 event \"abc def\" \"abc def\"\n",
        "2024-11-12 query \"abc def\" \"abc def\"\n",
        "2024-11-12 note Assets:Abc:Def \"abc def\"\n",
        "2024-11-12 document Assets:Abc:Def \"/abc/def\"\n",
        "2024-11-12 custom \"abc\" \"abc\" 12.34 UST TRUE 2024-11-12 12.34 Assets:Abc \"abc\"\n",
        "2024-11-12 * \"abc def\" \"abc def\" #tag-a #tag-b ^link-a\n  kka: \"vvv\"\n  Assets:Abc:Def 12.34 UST {12.34 # 12.34 UST, 2024-11-12, \"abc\", *} @ 12.34 UST\n    kka: \"vvv\"\n    #tag-a\n  ! Assets:Abc:Def -12.34 UST @@ 12.34 UST\n  Assets:Abc:Def UST {USD}\n  'A Assets:Abc 12.34\n",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let letters = ['a', 'B', '1', '3', '-', 'é', '!', 'S'];
    let mut jobs = vec![];
    for (n, s) in near.iter().enumerate() {
        for at in s.char_indices().map(|x| x.0) {
            for e in 0..=2 * letters.len() {
                jobs.push((n, at, e));
            }
        }
    }
    let what = format!("{} directives of all kinds and every one-character insertion, substitution ({:?}) or deletion of them that is valid: equal exactly if the contents are", near.len(), letters);
    v.push(family("near", what, jobs.len() as u64, move |i, ctx| {
        let (n, at, e) = jobs[i as usize];
        let s = &near[n];
        let c = s[at..].chars().next().unwrap();
        let mut b = s[..at].to_string();
        if e > 0 {
            b.push(letters[(e - 1) % letters.len()]);
        }
        b += &s[if e > letters.len() { at } else { at + c.len_utf8() }..];
        let x = refm::expect(&b);
        if b == *s || !x.ok || x.directives.len() != 1 {
            ctx.trace(1);
            return Ok(());
        }
        pair(s, &b, ctx)
    }));
    v.push(gen::simple_directives("accessors-directives", consistent_text));
    v.push(gen::transactions("accessors-transactions", consistent_text));
    v.push(gen::metavalues("accessors-metadata", consistent_text));
    v.push(words_family("accessors-lookup", "metadata lines and pushed metadata, looked up", &[("2024-01-02 *\n", ""), ("pushmeta kk: 5\npushtag #z\n2024-01-02 close Assets:A\n", "popmeta kk:\npoptag #z\n"), ("2024-01-02 *\n  Assets:A 1 USD\n", "")], &["  kk: 1\n", "  kkk: 2\n", "  mm:\n", "  open: TRUE\n", "  zz: \"s\"\n", "  #t\n", "  ^t\n"], t.pick(4, 5), "", consistent_text));
    v.extend(super::fidelity::coincidences(t, "accessors of ", consistent_text));
    v.push(super::fidelity::shapes(t, "accessors of shapes", consistent_text));
    let letters = ["A", "B", "a", "b", "1", "-", "é"];
    let words: Vec<String> = (0..words_count(7, 3)).map(|i| word(i, 7).iter().map(|d| letters[*d]).collect::<String>()).collect();
    let n = words.len() as u64;
    v.push(family("names", format!("all {}² pairs of words of up to 3 characters as names of each kind", n), n * n, move |i, ctx| name_pair(&words[(i / n) as usize], &words[(i % n) as usize], ctx)));
    const NEAR: [(&str, &str); 6] = [("", "b1"), ("A", "B"), ("A", ""), ("ab", "c"), ("Assets:A", "B"), ("ABCDEFGHIJKLMNOPQ", "R")];
    let chars: Vec<char> = (' '..='~').chain("\u{e0}\u{e9}\u{c9}\u{e8}\u{131}\u{df}\u{17f}".chars()).collect();
    let n = chars.len() as u64;
    v.push(family("near names", format!("all pairs of {} characters in each of {} names of each kind", n, NEAR.len()), n * n * NEAR.len() as u64, move |i, ctx| {
        let d = digits(i, &[n, n, NEAR.len() as u64]);
        let (a, b) = NEAR[d[2]];
        name_pair(&format!("{}{}{}", a, chars[d[0]], b), &format!("{}{}{}", a, chars[d[1]], b), ctx)
    }));
    v
}
