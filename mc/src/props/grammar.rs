//! C02 (lexical faithfulness) and C04 (accept/reject by grammar).

use crate::{common::*, engine::*, tree::*};

const D: &str = "2024-01-02";

pub fn c02(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // characters that begin, continue or end every kind of token
    let chars1 = ["1", "0", "2", ",", ".", "-", "/", ":", "A", "B", "a", "#", "^", "'", "_", " "];
    let chars2 = ["\"", "\\", "n", "é", "日", "٢", "A", "1", " ", ";", "\n", "x", "t"];
    let chars3 = ["@", "{", "}", "~", "(", ")", "*", "|", "+", "-", "1", "A", "!", "%", "&", "?", " "];
    let custom: &[(&str, &str)] = &[("2024-01-02 custom \"x\" ", "\n"), ("2024-01-02 custom \"x\" USD", " 1 USD\n")];
    v.push(words_family("chars-names-numbers", "characters of names and numbers in a custom directive", custom, &chars1, t.pick(4, 6), "", agree));
    v.push(words_family("chars-strings", "string, escape, Unicode, comment characters", custom, &chars2, t.pick(4, 5), "", agree));
    v.push(words_family("chars-punctuation", "punctuation characters", custom, &chars3, t.pick(3, 5), "", agree));
    // any character anywhere
    v.push(edits_family("any-character", &TEXTS, all_chars(), agree));
    // files, which are read, begin and end with any character
    let odd = all_chars();
    let no = odd.len() as u64;
    v.push(family("ends of files", format!("a file and one it includes, {} characters at the start, the end, alone, or twice", no), no * 8, move |i, ctx| {
        let c = &odd[(i / 8) as usize];
        let body = match i % 4 {
            0 => format!("{}2024-01-02 close Assets:A\n", c),
            1 => format!("2024-01-02 close Assets:A\n{}", c),
            2 => c.clone(),
            _ => format!("{}{}2024-01-02 close Assets:A\n{}", c, c, c),
        };
        let mut tr = Tree::new(&world());
        if i % 8 < 4 {
            tr.file("r.bean", "include \"i.bean\"\n2024-01-01 close Assets:B\n").file("i.bean", &body);
        } else {
            tr.file("r.bean", &body);
        }
        agree_tree(&tr, "r.bean", ctx, false)
    }));
    let places = [
        ("", "\n"), ("2024-01-01 close Assets:A\n", " x\n2024-01-02 close Assets:B\n"), ("2024-01-01 close Assets:A\n  ", " 1\n2024-01-02 close Assets:B\n"), ("2024-01-01 custom \"x\" ", "\n"), ("2024-01-01 custom \"x\" 1", "2\n"), ("2024-01-01 custom \"x\" A", "B\n"), ("2024-01-01 custom \"x\" \"", "\"\n"),
        ("2024-01-01 custom \"x\" #a", "b\n"), ("2024-01-01 custom \"x\" Assets:A", "b\n"), ("2024-01-01 close Assets:A ;", "\n2024-01-02 close Assets:B\n"), ("2024-01-01 close Assets:A\n* ", "\n2024-01-02 close Assets:B\n"), ("2024-01-01 close Assets:A\n  a", ": 1\n"), ("2024-01-01 ", " \"n\"\n"), ("2024-01-01 *\n  ", " Assets:A 1 USD\n"),
        ("2024-01-01 close Assets:A\n", ""), ("2024-01-01 *\n  Assets:A 1 USD", "\n"),
    ];
    let radices = [places.len() as u64, 128, 128];
    v.push(family("character-pairs", format!("every pair of ASCII characters in each of the places {:?}", places), product(&radices), move |i, ctx| {
        let d = digits(i, &radices);
        let (a, b) = places[d[0]];
        agree(&format!("{}{}{}{}", a, d[1] as u8 as char, d[2] as u8 as char, b), ctx)
    }));
    // lengths and counts
    let mut long = vec![];
    for n in 1..=t.pick(140usize, 600) {
        for (a, x, b) in [
            ("2024-01-01 custom \"x\" \"", "a", "\"\n"), ("2024-01-01 custom \"x\" \"", "é", "\"\n"), ("2024-01-01 custom \"x\" \"", "\\\\", "\"\n"), ("2024-01-01 custom \"x\" \"", "\\\"", "\"\n"), ("2024-01-01 custom \"x\" #", "t", "\n"), ("2024-01-01 custom \"x\" ^", "L", "\n"), ("2024-01-01 custom \"x\" ", "C", "\n"), ("2024-01-01 custom \"x\" A", ".", "Z\n"),
            ("2024-01-01 close Assets:A", "b", "\n"), ("2024-01-01 close Assets", ":A1", "\n"), ("2024-01-01 close Assets:日", "本", "\n"), ("2024-01-01 close Assets:A ;", "c", "\n2024-01-02 close Assets:B\n"), ("2024-01-01 close Assets:A\n", "; c\n", "2024-01-02 close Assets:B\n"), ("2024-01-01 close Assets:A\n", "* h\n", "2024-01-02 close Assets:B\n"), ("2024-01-01 close Assets:A\n*", "*", " h\n2024-01-02 close Assets:B\n"),
            ("2024-01-01 close Assets:A\n", "\n", "2024-01-02 close Assets:B\n"), ("2024-01-01 close Assets:A\n", "  \n", "  kk: 1\n"), ("2024-01-01 close Assets:A\n", " ", "kk: 1\n"), ("2024-01-01 close Assets:A\n", "\t", "kk: 1\n"), ("2024-01-01 close Assets:A\n  k", "k", ": 1\n"), ("2024-01-01 close Assets:A\n  kk", "-1", ": 1\n"), ("2024-01-01", " ", "close Assets:A\n"), ("2024-01-01 close Assets:A", " ", "\n"),
            ("2024-01-01 custom \"x\" \"", "\n", "\"\n"), ("", "\n", "2024-01-02 close Assets:B\n"), ("", "; c\n", "2024-01-02 close Assets:B"),
            ("2024-01-02 close Assets:A\n", " ", ""), ("2024-01-02 close Assets:A\n", "\t", ""), ("2024-01-02 close Assets:A\n;", "c", ""), ("2024-01-02 close Assets:A\n", "  \n", "  "), ("2024-01-02 close Assets:A", " ", ""), ("", " ", ""), ("", ": x\n", "2024-01-02 close Assets:A\n"), ("2024-01-02 close Assets:A\n  open", " ", ": 1\n"), ("2024-01-02 close Assets:A\n  kk:", " ", "1\n"), (" ; c\n", ": x\n", "2024-01-02 close Assets:A\n"),
        ] {
            long.push(format!("{}{}{}", a, x.repeat(n), b));
        }
    }
    v.push(texts_family("lengths", format!("tokens, gaps, indents, comments, ignored and blank lines of every length or count 1..={}", t.pick(140, 600)), long, agree));
    // one other character at any place of a long token
    let ns: Vec<usize> = (1..=t.pick(66usize, 140)).chain([100, 127, 128, 129, 255, 256, 257, 300]).collect();
    let kinds = [
        ("2024-01-01 custom \"x\" #", "t", "\n"), ("2024-01-01 *\n  Assets:A 1 USD\n    ^", "L", "\n"), ("2024-01-01 commodity C", "C", "\n"), ("2024-01-01 close Assets:A", "b", "\n"), ("2024-01-01 close Assets:日", "本", "\n"), ("2024-01-01 close Assets:A\n  k", "k", ": 1\n"),
        ("2024-01-01 note Assets:A \"", "a", "\"\n2024-01-02 close Assets:B\n"), ("2024-01-01 close Assets:A ;", "c", "\n2024-01-02 close Assets:B\n"), ("2024-01-01 price USD 0.", "0", "\n"), ("option \"name_assets\" \"A", "b", "\"\n"),
    ];
    let others = ["A", "b", "1", "-", "_", ".", "'", "/", ":", " ", "é", "²", "€", "\"", "\\", "\n", ";", "#", ","];
    let radices = [ns.len() as u64, kinds.len() as u64];
    v.push(family("odd one out", "tokens of 1..=66 and up to 300 characters of one kind, with another of 19 characters at any place", product(&radices), move |i, ctx| {
        let d = digits(i, &radices);
        let n = ns[d[0]];
        let (a, x, b) = kinds[d[1]];
        for at in 0..=n {
            if n > 140 && at % 8 > 1 && at + 2 < n {
                continue;
            }
            for o in others {
                agree(&format!("{}{}{}{}{}", a, x.repeat(at), o, x.repeat(n - at), b), ctx)?;
            }
        }
        Ok(())
    }));
    v
}

/// short texts with all kinds of token
pub const TEXTS: [&str; 16] = [
    "2024-01-02 open Assets:A-b USD,GBP \"FIFO\" #t ^l\n  kk: 1 USD\n  #u\n",
    "2024-01-02 * \"p\" | \"n\" #t\n  ! Assets:A:B -1.5 USD {2 # 3 GBP, 2024-01-01, \"l\", *} @@ 4 GBP\n    mm: TRUE\n",
    "2024-01-02 balance Assets:A 1,000.50 ~ 0.01 A'B\n",
    "2024/01/02 custom \"t\" 1 + (2 - 3) * 4 / 5 USD /X1 Assets:A NULL \"a\\nb\"\n",
    "2024-01-02 note Assets:A \"a\nb ; c\" ; d\n\n* h\n; i\n",
    "option \"title\" \"x\"\nplugin \"a\" \"b\"\n",
    "pushtag #t\npushmeta kk: 1\n2024-01-02 close Assets:A\npopmeta kk:\npoptag #t\n",
    "2024-01-02 txn\n  Assets:A 1 USD {{2 USD}}\n  * Equity:B @ USD\n  'X Income:C\n",
    "2024-01-02 price USD 1 GBP\n2024-01-02 pad Assets:A Equity:B\n2024-01-02 commodity A.B-C_D\n",
    "2024-01-02 document Assets:A \"p\" #t\n  open: ^l\n2024-01-02 event \"a\" \"b\"\n2024-01-02 query \"q\" \"s\"\n",
    "2024-01-02 'A\n  # Expenses:日本 1\n    #t\n  ? Liabilities:É2 {}\n  & Assets:C\n  % Assets:D\n",
    "2024-01-02 close Assets:A\r\n  kk: #t\r\n  zz:\r\n\r\n2024-01-03 close Assets:B\r\n",
    "; c\n2024-01-02 close Assets:A\n: ignored\n  : x\n\t; d\n# e",
    "2024-01-02 ! \"\"\n\tAssets:A\t-+1 USD\n\t\tkk: \"\\\"\\\\\\t\"\n",
    "2024-01-02 balance Assets:A 0 USD\n2024-01-02 balance Assets:A .5 USD\n2024-01-02 balance Assets:A 5. USD\n",
    "2024-01-02 custom \"t\" TRUE FALSE 2024-02-29 #t ^l 1 2 - 3 -4\n",
];

/// tokens that can stand anywhere
pub const ANY: [&str; 31] = [
    "1", "USD", "Assets:A", "\"s\"", "#t", "^l", "kk:", D, "TRUE", "NULL", "*", "!", "#", "-", "+", "/", "(", ")", "{", "}", "@", "@@", ",", "~",
    ":", "|", "{{", "}}", "12:30", "'A", "foo",
];

/// every kind of declaration, with all its parts, tokens apart
const DECLS: [&str; 26] = [
    "2024-01-02 open Assets:A USD , GBP \"FIFO\" #t ^l\n  kk: 1 USD\n  #u\n",
    "2024-01-02 open Assets:A\n",
    "2024-01-02 * \"p\" \"n\" #t ^l\n  kk: \"v\"\n  ! Assets:A - 1 USD { 1 # 2 GBP , 2024-01-01 , \"l\" , * } @@ 3 GBP\n    mm: TRUE\n    #pt\n  Assets:B\n",
    "2024-01-02 ! \"p\" | \"n\"\n  Assets:A 1 USD @ 3 GBP\n",
    "2024-01-02 txn \"n\"\n  Assets:A ( 1 + 2 ) * 3 USD {{ 5 USD , 2024-01-01 }}\n  Assets:B 2\n",
    "2024-01-02 txn\n  Assets:A USD @@ USD\n  Assets:B { } @\n",
    "2024-01-02 balance Assets:A 1.50 ~ 0.01 USD #t\n  kk: 1\n",
    "2024-01-02 balance Assets:A 1 USD\n",
    "2024-01-02 close Assets:A #t ^l\n",
    "2024-01-02 commodity USD ^l\n  kk: USD\n",
    "2024-01-02 pad Assets:A Equity:B #t\n",
    "2024-01-02 price USD 1 / 3 GBP ^l\n",
    "2024-01-02 document Assets:A \"p\" #t ^l\n",
    "2024-01-02 note Assets:A \"c\" #t ^l\n  kk: NULL\n",
    "2024-01-02 event \"a\" \"b\" #t\n",
    "2024-01-02 query \"a\" \"b\" #t\n",
    "2024-01-02 custom \"t\" 1 USD - 1 Assets:A #t ^l TRUE NULL 2024-01-01 \"s\"\n  kk: ^l\n",
    "pushtag #t\n2024-01-02 close Assets:A\npoptag #t\n",
    "pushmeta kk: 1 USD\n2024-01-02 close Assets:A\npopmeta kk:\n",
    "option \"title\" \"x\"\n",
    "option \"account_rounding\" \"Rounding\"\n",
    "plugin \"a\" \"b\"\n",
    "plugin \"a\"\nplugin \"b\"\n",
    "2024-01-02 # \"n\"\n  # Assets:A 1 USD\n  kk: 1\n  * Assets:B\n    open: 1\n",
    "2024-01-02 'X\n  'Y Assets:A 1 USD\n  #t ^l\n  zz:\n",
    "2024-01-02 close Assets:A\n\n2024-01-03 *\n  Assets:A\n\n  Assets:B\n; c\n",
];

pub fn c04(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(words_family("header", "token sequences after a date", &[("2024-01-02 ", "\n")], &[&ANY[..], &["txn", "open", "balance"]].concat(), t.pick(3, 4), " ", agree));
    // arguments of each kind of directive
    let args = ["1", "USD", "Assets:A", "\"s\"", "\"FIFO\"", "#t", "^l", D, "TRUE", ",", "~", "-", "|", "kk:", "*", "@"];
    let ctx: Vec<(String, String)> = ["balance", "close", "commodity", "custom", "document", "event", "note", "open", "pad", "price", "query", "txn", "*", "!", "'A", "#"]
        .iter()
        .map(|k| (format!("2024-01-02 {} ", k), "\n".to_string()))
        .collect();
    v.push(words_family("arguments", "arguments of each directive", &refs(&ctx), &args, t.pick(4, 5), " ", agree));
    // posting lines
    let post = ["1", "USD", "{", "}", "{{", "}}", "@", "@@", ",", "#", "*", "\"s\"", D, "-", "/", "(", ")", "Assets:B", "!", "#t", "kk:"];
    v.push(words_family("posting", "a posting line after its account", &[("2024-01-02 *\n  Assets:A ", "\n"), ("2024-01-02 *\n  Assets:A 5 USD ", "\n")], &post, t.pick(4, 5), " ", agree));
    v.push(words_family("posting-line", "a whole posting line", &[("2024-01-02 *\n  ", "\n"), ("2024-01-02 open Assets:A\n  ", "\n")], &ANY, t.pick(3, 4), " ", agree));
    // cost specifications
    let cost = ["1", "2", "USD", "#", ",", D, "\"s\"", "*", "-", "+"];
    v.push(words_family("cost", "inside a cost specification", &[("2024-01-02 *\n  Assets:A 5 GOOG {", "}\n"), ("2024-01-02 *\n  Assets:A 5 GOOG {{", "}}\n"), ("2024-01-02 *\n  Assets:A 5 GOOG {", "} @ 3 USD\n")], &cost, t.pick(5, 6), " ", agree));
    let price = ["1", "USD", "@", "@@", "{", "}", "-", "(", ")", "*", "#"];
    v.push(words_family("price", "price annotations", &[("2024-01-02 *\n  Assets:A 5 GOOG @ ", "\n"), ("2024-01-02 *\n  Assets:A @@ ", "\n"), ("2024-01-02 *\n  Assets:A 5 {} ", "\n")], &price, t.pick(5, 6), " ", agree));
    // metadata lines
    let meta = ["kk:", "key2:", "open:", "1", "USD", "Assets:A", "\"s\"", "#t", "^l", D, "TRUE", "FALSE", "NULL", "-", "*", "(", ")", ","];
    v.push(words_family("metadata", "metadata lines of a directive, a transaction and a posting", &[("2024-01-02 close Assets:A\n  ", "\n"), ("2024-01-02 *\n  ", "\n"), ("2024-01-02 *\n  Assets:A\n    ", "\n")], &meta, t.pick(4, 5), " ", agree));
    // pragmas
    let prag = ["\"s\"", "\"title\"", "#t", "^l", "kk:", "kk", "key2", ":", "1", "USD", D, "TRUE", "Assets:A", "-"];
    let ctx: Vec<(String, String)> = ["pushtag ", "poptag ", "pushmeta ", "popmeta ", "option ", "plugin ", "options ", "", "pushtag #t\npoptag ", "pushmeta kk: 1\npopmeta "]
        .iter()
        .flat_map(|k| [(k.to_string(), "\n".to_string()), (k.to_string(), "\npoptag #t\n".to_string()), (k.to_string(), "\npopmeta kk:\n".to_string())])
        .collect();
    v.push(words_family("pragmas", "arguments of pragmas", &refs(&ctx), &prag, t.pick(3, 4), " ", agree));
    // whole files as sequences of lines
    let lines = [
        "2024-01-02 open Assets:A\n", "2024-01-02 *\n", "2024-01-02 * \"p\" \"n\" #t\n", "  Assets:A 1 USD\n", "  kk: 1\n", "  #t\n", "  ^l\n", "\n", "  \n", "; c\n", "  ; c\n",
        "* heading\n", "  * Assets:B\n", "  : x y\n", "foo\n", "  foo\n", "pushtag #t\n", "poptag #t\n", "\r\n",
    ];
    // one token wrong anywhere
    v.push(texts_family("token-edits", format!("every single-token edit of {} declarations: a token dropped, doubled, swapped with any other, replaced, inserted, put on another line", DECLS.len()), token_edits(&DECLS, &[&ANY[..], &["txn", "open", "pad", "include", "pushtag", "poptag", "option"]].concat()), agree));
    let few: Vec<String> = "\n\r\t !\"#%'()*+,-./0127:;?@AUZ\\^_akz{|}~é€".chars().map(|c| c.to_string()).collect();
    v.push(edits_family("character-edits", &[&TEXTS[..], &DECLS[..]].concat(), few, agree));
    v.push(edits_family("any-character", &TEXTS, all_chars(), agree));
    v.push(super::fidelity::many(t, "", agree));
    v.push(words_family("lines", "files of whole lines", &[("", ""), ("", "2024-01-03 close Assets:A"), ("2024-01-01 *\n", "  ")], &lines, t.pick(4, 5), "", agree));
    v
}
