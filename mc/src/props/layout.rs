//! C19 (errors are local), C14 (layout is neutral).

use crate::{canon::*, common::*, engine::*, refm, refm::T, tree::*};
use std::sync::Arc;

// ---------------------------------------------------------------- C19

const GOOD: [&str; 10] = [
    "2024-01-01 open Assets:A USD\n",
    "2024-01-02 * \"p\" \"n\" #t\n  Assets:A 1 USD\n    kk: 1\n  Income:B\n",
    "2024-01-03 note Assets:A \"x\ny\"\n",
    "option \"title\" \"T\"\n",
    "pushtag #q\npoptag #q\n",
    "plugin \"m\"\n",
    "2024-01-04 balance Assets:A 1 ~ 0.1 USD\n  kk: 1\n  #t\n",
    "; comment\n2024-01-05 close Assets:A\n\n",
    "2024-01-06 custom \"x\" 1 USD TRUE\n",
    "* heading\n2024-01-05 pad Assets:A Equity:B\n\n",
];

/// read, then found wanting
const SOFT: [&str; 7] = [
    "2024-02-01 * \"n\" #t #t\n",
    "2024-02-02 close Assets:A\n  kk: 1\n  kk: 2\n",
    "2024-02-03 open Assets:A USD,USD\n",
    "2024-02-04 balance Assets:A 1/0 USD\n",
    "option \"booking_method\" \"FOO\"\n",
    "option \"no_such_option\" \"x\"\n",
    "poptag #zz\n",
];

/// cannot be read
const HARD: [&str; 13] = [
    "2024-03-01 open\n",
    "2024-03-02 open Assets:A Assets:B\n",
    "2024-03-03 *\n  Assets:A 1 USD USD\n",
    "2024-03-04 *\n  Assets:A 1 X {1, 1}\n  Assets:B\n",
    "2024-13-01 close Assets:A\n",
    "2024-03-05 nonsense Assets:A\n",
    "2024-03-06 note Assets:A\n  kk: 1\n",
    "plugin\n",
    "option \"title\"\n",
    "pushtag foo\n",
    "2024-03-07 balance Foo:A 1 USD\n",
    "  kk: 1\n",
    "2024-03-08 *\n  \u{20ac} Assets:A\n  Assets:B 1 USD\n",
];

pub fn c19(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let all: Vec<&str> = GOOD.iter().chain(&SOFT).chain(&HARD).copied().collect();
    v.push(words_family("files", "sequences of correct and broken declarations", &[("", ""), ("2024-01-01 commodity USD\n", "")], &all, t.pick(3, 4), "", agree_places));
    // longer over fewer
    let few: Vec<&str> = vec![GOOD[0], GOOD[1], GOOD[3], GOOD[7], SOFT[0], SOFT[1], SOFT[4], HARD[1], HARD[2], HARD[3], HARD[5], HARD[9]];
    v.push(words_family("longer-files", "longer sequences over fewer declarations", &[("", "")], &few, t.pick(5, 6), "", agree_places));
    let tiny: Vec<&str> = vec![GOOD[1], SOFT[1], HARD[2], HARD[9]];
    v.push(words_family("longest-files", "longest sequences over four declarations", &[("", "")], &tiny, t.pick(8, 10), "", agree_places));
    // what correct declarations say still counts after a mistake, and what broken ones say does not
    let eff = [
        "option \"name_assets\" \"Aktiva\"\n", "2024-01-01 open Aktiva:X\n", "2024-01-01 open Assets:X\n", "option \"name_income\" \"Aktiva\"\n", "option \"title\" \"A\"\n", "option \"title\" \"B\" \"C\"\n", "pushtag #t\n", "poptag #t\n", "2024-01-02 open\n", "2024-01-02 close Aktiva:X #a #a\n", "option \"name_assets\" \"lower\"\n", "pushtag #t #t\n", "poptag\n",
    ];
    v.push(words_family("effects", "declarations with effects on later ones, and broken ones", &[("", "")], &eff, t.pick(4, 5), "", agree_places));
    // one mistake anywhere in a declaration: tokens dropped, doubled, replaced or inserted
    let victims = [
        "2024-02-01 * \"p\" \"n\" #t ^l", "2024-02-01 open Assets:B USD,GBP \"FIFO\"", "2024-02-01 balance Assets:B 1 + 2 ~ 0.1 USD", "2024-02-01 price USD 1 GBP", "2024-02-01 custom \"a\" 1 USD Assets:A", "2024-02-01 pad Assets:A Equity:B", "2024-02-01 event \"a\" \"b\"", "pushmeta kk: 1", "option \"title\" \"x\"", "plugin \"a\" \"b\"", "2024-02-01 document Assets:A \"p\" #t",
    ];
    let bodies = ["", "  kk: 1\n", "  Assets:A 1 USD {2 GBP, \"l\"} @ 3 GBP\n    mm: 2\n", "  Assets:A 1 USD USD\n", "  #t #t\n"];
    let extra = ["USD", "1", "\"s\"", "#t", "^l", "kk:", ":", "*", "{", "}", "@", ",", "2024-02-30", "€", "(", "open", "txn"];
    let mut texts = vec![];
    for vi in victims {
        let toks: Vec<&str> = vi.split(' ').collect();
        let mut lines: Vec<String> = vec![];
        for i in 0..=toks.len() {
            if i < toks.len() {
                let mut x = toks.clone();
                x.remove(i);
                lines.push(x.join(" "));
                let mut x = toks.clone();
                x.insert(i, toks[i]);
                lines.push(x.join(" "));
            }
            for e in extra {
                let mut x = toks.clone();
                x.insert(i, e);
                lines.push(x.join(" "));
                if i < toks.len() {
                    x.remove(i + 1);
                    lines.push(x.join(" "));
                }
            }
        }
        lines.sort();
        lines.dedup();
        for l in lines {
            // a declaration within the line is a different matter
            for b in bodies {
                for (pre, post) in [("", ""), ("2024-01-01 open Assets:A\n", "2024-03-01 * \"after\"\n  Assets:A 1 USD\n"), ("2024-01-01 *\n  Assets:A\n", "2024-03-01 note Assets:A \"c\" #t #t\n2024-03-02 close Assets:A\n")] {
                    texts.push(format!("{}{}\n{}{}", pre, l, b, post));
                }
            }
        }
    }
    v.push(texts_family("mutations", "one token dropped, doubled, replaced or inserted anywhere in a header of each kind, x bodies x surroundings", texts, mutated));
    // one character wrong anywhere in a declaration between others
    let bases: Vec<String> = victims.iter().enumerate().map(|(i, vi)| format!("2024-01-01 open Assets:A\n{}\n{}2024-03-01 * \"after\"\n  Assets:A 1 USD\n", vi, ["", "  kk: 1\n", "  #u\n"][if vi.starts_with("20") { i % 3 } else { 0 }])).collect();
    let bases: Vec<&str> = bases.iter().map(|s| s.as_str()).collect();
    let few: Vec<String> = t.pick("\n \"#*1A:;a€", "\n\r\t !\"#%'()*+,-./0127:;?@AUZ\\^_akz{|}~é€").chars().map(|c| c.to_string()).collect();
    v.push(edits_family("character-edits", &bases, few, mutated));
    // many declarations, one or two broken
    let max = t.pick(30u64, 60);
    let radices = [max, max, 6];
    v.push(family("long-files", format!("files of {} transactions in which any one or two are broken in 6 ways", max), product(&radices), move |i, ctx| {
        let d = digits(i, &radices);
        let bad = ["2024-03-01 open\n", "2024-02-02 close Assets:A\n  kk: 1\n  kk: 2\n", "2024-03-03 *\n  Assets:A 1 USD USD\n", "poptag #zz\n", "option \"title\"\n", "2024-03-08 *\n  \u{20ac} Assets:A\n  Assets:B 1 USD\n"][d[2]];
        let text: String = (0..max as usize).map(|k| if k == d[0] || k == d[1] { bad.to_string() } else { format!("2024-01-02 * \"{}\"\n  Assets:A {} USD\n  Income:B\n\n", k, k) }).collect();
        agree_places(&text, ctx)
    }));
    // many mistakes
    let ns: Vec<usize> = sizes(Tier::Quick, 40)[1..].to_vec();
    v.push(family("many-mistakes", "1..=40, and up to 1100 declarations broken in 6 ways, each followed by a correct one", ns.len() as u64 * 6, move |i, ctx| {
        let bad = ["2024-03-01 open\n", "2024-02-02 close Assets:A\n  kk: 1\n  kk: 2\n", "2024-03-03 *\n  Assets:A 1 USD USD\n", "poptag #zz\n", "option \"title\"\n", "2024-03-08 *\n  \u{20ac} Assets:A\n  Assets:B 1 USD\n"][(i % 6) as usize];
        let text: String = (0..ns[(i / 6) as usize]).map(|k| format!("{}2024-01-02 * \"{}\"\n  Assets:A {} USD\n  Income:B\n\n", bad, k, k)).collect();
        agree_places(&text, ctx)
    }));
    // many mistakes of two kinds, in the root or in an included file
    const BAD: [&str; 7] = ["2024-03-01 open\n", "2024-02-02 close Assets:A\n  kk: 1\n  kk: 2\n", "2024-03-03 *\n  Assets:A 1 USD USD\n", "poptag #zz\n", "popmeta kk:\n", "option \"title\" \"x\"\n", "2024-03-08 *\n  \u{20ac} Assets:A\n  Assets:B 1 USD\n"];
    let ns: Vec<usize> = (1..=t.pick(20usize, 60)).chain([33, 65, 129]).collect();
    v.push(family("two-kinds", "1..=20, and up to 129 mistakes of one of 7 kinds and then as many of another, each followed by a correct declaration, in the root or in an included file between a push and its pop", ns.len() as u64 * 49 * 2, move |i, ctx| {
        let d = digits(i, &[7, 7, 2, ns.len() as u64]);
        let mut text = String::new();
        for kind in [d[0], d[1]] {
            for k in 0..ns[d[3]] {
                text += &format!("{}2024-01-02 * \"{}\"\n  Assets:A {} USD\n  Income:B\n\n", BAD[kind], k, k);
            }
        }
        if d[2] == 0 {
            return agree_places(&text, ctx);
        }
        let mut tr = Tree::new(&world());
        tr.file("root.bean", "pushtag #q\npushmeta kq: 1\ninclude \"a.bean\"\n2024-01-01 open Assets:A\n");
        tr.file("a.bean", &format!("poptag #q\n{}popmeta kq:\n", text));
        agree_tree(&tr, "root.bean", ctx, false)
    }));
    // mistakes in several files
    let parts = ["", "2024-01-01 open Assets:A\n", "2024-02-01 close Assets:A\n  kk: 1\n  kk: 2\n", "2024-03-02 open Assets:A Assets:B\n2024-01-01 close Assets:A\n", "poptag #x\n", "pushtag #x\n", "2024-03-05 nonsense\n", "\u{20ac}\n2024-01-01 close Assets:A\n"];
    let np = parts.len() as u64;
    let radices = [np, np, np, np, np];
    let count = product(&radices);
    v.push(family("several-files", format!("root with declarations before, between and after two includes, each file one of {} pieces", np), count, move |i, ctx| {
        let d = digits(i, &radices);
        let w = world();
        let mut tr = Tree::new(&w);
        tr.file("root.bean", &format!("{}include \"a.bean\"\n{}include \"sub/b.bean\"\n{}", parts[d[0]], parts[d[1]], parts[d[2]]));
        tr.file("a.bean", parts[d[3]]);
        tr.file("sub/b.bean", parts[d[4]]);
        agree_tree(&tr, "root.bean", ctx, false)
    }));
    v
}

/// A mutated line may hold a whole declaration after the mistake, from which the library resumes; then only
/// the verdict is specified, and that errors stay out of the other declarations.
fn mutated(text: &str, ctx: &mut Ctx) -> R {
    let t = expect_inline(text);
    let out = guarded(|| parse_text(text)).map_err(|e| format!("{}: {:?}", e, text))?;
    note(ctx, text, &t.exp);
    refm::compare(text, &t.exp, &out)?;
    check_places(&t, &out).map_err(|e| format!("{}: {:?}", e, text))
}

// ---------------------------------------------------------------- C14

/// a file as lines of (indent depth, tokens with the gap before each)
struct Layout {
    base: String,
    /// physical lines: text pieces between which space may be put; true if the line is indented
    lines: Vec<(bool, Vec<String>, Vec<bool>)>, // pieces, and whether a gap exists before each (else none may be needed)
}

/// Cut a file into lines and tokens by the reference lexer. Every existing gap may be widened; where two tokens
/// touch, space may be added unless that would change what they are.
fn cut(base: &str) -> Layout {
    let toks = refm::lex(base);
    let mut lines: Vec<(bool, Vec<String>, Vec<bool>)> = vec![];
    let mut pieces: Vec<String> = vec![];
    let mut gaps: Vec<bool> = vec![];
    let mut indent = base.starts_with([' ', '\t']);
    let mut last_end = 0;
    for t in &toks {
        match &t.t {
            T::Eol(i) => {
                lines.push((indent, std::mem::take(&mut pieces), std::mem::take(&mut gaps)));
                indent = *i;
                last_end = t.e;
            }
            _ => {
                let touching = t.s == last_end && !pieces.is_empty();
                gaps.push(!pieces.is_empty() && !touching);
                last_end = t.e;
                pieces.push(base[t.s..t.e].to_string());
            }
        }
    }
    if !pieces.is_empty() {
        lines.push((indent, pieces, gaps));
    }
    Layout { base: base.to_string(), lines }
}

#[derive(Clone, Copy)]
struct Style<'a> {
    gap: &'a str,
    /// between tokens that touch in the base
    touch: &'a str,
    indent: &'a str,
    trail: &'a str,
    insert: &'a str,
    eol: &'a str,
    last: bool,
}

const PLAIN: Style = Style { gap: " ", touch: "", indent: "  ", trail: "", insert: "", eol: "\n", last: true };

fn render(l: &Layout, style: impl Fn(usize, usize) -> Style<'static>) -> String {
    let mut o = String::new();
    let n = l.lines.len();
    for (i, (indented, pieces, gaps)) in l.lines.iter().enumerate() {
        let s = style(i, 0);
        if i > 0 && !s.insert.is_empty() {
            o += &s.insert.replace('\n', s.eol);
        }
        if *indented {
            o += s.indent;
        }
        for (j, p) in pieces.iter().enumerate() {
            if j > 0 {
                let s = style(i, j);
                if gaps[j] {
                    o += s.gap;
                } else {
                    o += s.touch;
                }
            }
            o += p;
        }
        o += s.trail;
        if i + 1 < n || s.last {
            o += s.eol;
        }
    }
    o
}

const BASES: [&str; 26] = [
    "2024-01-02 open Assets:A USD,GBP \"FIFO\" #t ^l\n  kk: 1 USD\n  #u\n",
    "2024-01-02 * \"p\" \"n\" #t\n  kk: \"v\"\n  ! Assets:A -1 + 2 * (3 - 1) USD {1 # 2 GBP, 2024-01-01, \"l\", *} @@ 3 GBP\n    mm: TRUE\n  Assets:B\n",
    "2024-01-02 balance Assets:A 1.50 ~ 0.01 USD\n",
    "2024-01-02 custom \"t\" 1 USD -1 Assets:A #t ^l TRUE NULL 2024-01-01 \"s\"\n  kk:\n",
    "2024-01-02 note Assets:A \"a\n  b ; c\n* d\"\n",
    "option \"title\" \"x\"\nplugin \"a\" \"b\"\npushtag #t\n2024-01-02 close Assets:A\npoptag #t\npushmeta kk: 1\npopmeta kk:\n",
    "2024-01-02 txn\n  Assets:A 1 USD\n  Assets:B @ USD\n2024-01-03 * \"n\" | \"m\"\n",
    "2024-01-02 price USD 1 GBP\n2024-01-02 pad Assets:A Equity:B\n2024-01-02 commodity USD\n",
    "2024-01-02 document Assets:A \"p\" #t\n  open: 1\n  close: Assets:A\n2024-01-02 event \"a\" \"b\"\n2024-01-02 query \"q\" \"s\"\n",
    "2024-01-02 # \"n\"\n  # Assets:A 1 USD\n  * Assets:B\n",
    "2024-01-02 'X\n  'Y Assets:A {}\n    #t\n  ? Assets:C 1 @\n",
    // a comment of its own
    "2024-01-02 close Assets:A ; c\n; d\n2024-01-03 close Assets:B\n",
    "2024-01-02 custom \"t\" 1 -2\n",
    "2024-01-02 *\n  Assets:A 1,000.50 A.B-C\n  Assets:B 1/2 USD\n",
    // invalid ones stay invalid
    "2024-01-02 open Assets:A USD GBP\n",
    "2024-01-02 * \"a\" \"b\" \"c\"\n",
    "2024-01-02 *\n  Assets:A 1 USD USD\n",
    "2024-01-02 close Assets:A\n  Assets:B 1 USD\n",
    "2024-01-02 close\n",
    "kk: 1\n",
    "2024-01-02 *\n  kk: 1\n  kk: 2\n",
    "2024-13-02 close Assets:A\n",
    "pushtag\n#t\n",
    "option \"title\" \"a\"\noption \"title\" \"b\"\n",
    "2024-01-02 note Assets:A\n  \"c\"\n",
    "2024-01-02 *\nAssets:A 1 USD\n",
];

struct Judged {
    lay: Layout,
    ok: bool,
    directives: Vec<Vec<(String, String)>>,
    options: Vec<(String, String)>,
    plugins: Vec<(String, Option<String>)>,
    crlf: bool,
}

fn judge(b: &str) -> Judged {
    let out = guarded(|| parse_text(b)).unwrap_or(Outcome { ok: false, directives: vec![], options: vec![], plugins: vec![], errors: vec![], warnings: vec![] });
    Judged { lay: cut(b), ok: out.ok, directives: out.directives.iter().map(|d| d.values_only()).collect(), options: out.options, plugins: out.plugins, crlf: !refm::lex(b).iter().any(|t| matches!(&t.t, T::Str(s) if s.contains('\n'))) }
}

fn same(j: &Judged, text: &str, ctx: &mut Ctx) -> R {
    ctx.trace(1);
    let out = guarded(|| parse_text(text)).map_err(|e| format!("{}: {:?}", e, text))?;
    if out.ok != j.ok {
        return Err(format!("{:?} is {}, but {:?} is {} {:?}", j.lay.base, if j.ok { "accepted" } else { "refused" }, text, if out.ok { "accepted" } else { "refused" }, out.errors.first().map(|e| (&e.message, &e.reason, e.span))));
    }
    let d: Vec<_> = out.directives.iter().map(|d| d.values_only()).collect();
    if d != j.directives || out.options != j.options || out.plugins != j.plugins {
        return Err(format!("{:?} and {:?} give different results: {:?} / {:?}", j.lay.base, text, j.directives, d));
    }
    ctx.state(text);
    ctx.outcome(&format!("{} with {} directives", if j.ok { "accepted" } else { "refused" }, d.len()));
    ctx.sample(|| format!("{:?} -> {}", text, if out.ok { "accepted" } else { "refused" }));
    Ok(())
}

const GAPS: [&str; 4] = [" ", "   ", "\t", " \t "];
const TOUCH: [&str; 4] = ["", " ", "\t", "   "];
const INDENTS: [&str; 5] = ["  ", " ", "\t", "        ", " \t"];
const TRAILS: [&str; 7] = ["", " ", "\t", " ; comment", ";c", ";", " ; é \"x ; #t *"];
const INSERTS: [&str; 13] = [
    "", "\n", "   \n", "\t\n", "; c\n", "  ; c\n", "\n\n\n", "* heading\n", "*** Org \"heading\n", ";\n\n  ;; x\n", "# md 2024-01-01 open Assets:A\n", "! x\n& y\n? z\n% w\n: v\n", "; \"unclosed\n",
];

/// all single places of a layout: (line, token)
fn places(l: &Layout) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, (_, p, _)) in l.lines.iter().enumerate() {
        for j in 0..p.len().max(1) {
            v.push((i, j));
        }
    }
    v
}

/// deviations possible at one place
fn deviations(l: &Layout, crlf: bool) -> Vec<(usize, usize, Style<'static>)> {
    let mut v = vec![];
    for (i, j) in places(l) {
        if j > 0 {
            for g in &GAPS[1..] {
                v.push((i, j, Style { gap: g, ..PLAIN }));
            }
            for g in &TOUCH[1..] {
                v.push((i, j, Style { touch: g, ..PLAIN }));
            }
        } else {
            for x in &INDENTS[1..] {
                if l.lines[i].0 {
                    v.push((i, j, Style { indent: x, ..PLAIN }));
                }
            }
            for x in &TRAILS[1..] {
                v.push((i, j, Style { trail: x, ..PLAIN }));
                v.push((i, j, Style { trail: x, last: false, ..PLAIN }));
            }
            if i > 0 {
                for x in &INSERTS[1..] {
                    v.push((i, j, Style { insert: x, ..PLAIN }));
                }
            }
            if crlf || true {
                v.push((i, j, Style { eol: "\r\n", ..PLAIN }));
            }
            v.push((i, j, Style { last: false, ..PLAIN }));
        }
    }
    // drop those that change nothing
    let base = render(l, |_, _| PLAIN);
    v.retain(|(i, j, s)| render(l, |a, b| if (a, b) == (*i, *j) { *s } else { PLAIN }) != base);
    v
}

fn merge(a: Style<'static>, b: Style<'static>) -> Style<'static> {
    Style {
        gap: if b.gap != PLAIN.gap { b.gap } else { a.gap },
        touch: if b.touch != PLAIN.touch { b.touch } else { a.touch },
        indent: if b.indent != PLAIN.indent { b.indent } else { a.indent },
        trail: if b.trail != PLAIN.trail { b.trail } else { a.trail },
        insert: if b.insert != PLAIN.insert { b.insert } else { a.insert },
        eol: if b.eol != PLAIN.eol { b.eol } else { a.eol },
        last: a.last && b.last,
    }
}

pub fn c14(t: Tier) -> Vec<Family> {
    let js: Arc<Vec<Judged>> = Arc::new(BASES.iter().map(|b| judge(b)).collect());
    let mut v = vec![];
    let nb = BASES.len() as u64;
    // uniform styles
    let radices = [nb, GAPS.len() as u64, TOUCH.len() as u64, INDENTS.len() as u64, TRAILS.len() as u64, INSERTS.len() as u64, 2, 2];
    let j = js.clone();
    v.push(family("uniform", format!("{} files x gaps {:?} x space where tokens touch {:?} x indents {:?} x line ends {:?} x inserted lines {:?} x LF/CRLF x last newline", nb, GAPS, TOUCH, INDENTS, TRAILS, INSERTS), product(&radices), move |i, ctx| {
        let d = digits(i, &radices);
        let s = Style { gap: GAPS[d[1]], touch: TOUCH[d[2]], indent: INDENTS[d[3]], trail: TRAILS[d[4]], insert: INSERTS[d[5]], eol: ["\n", "\r\n"][d[6]], last: d[7] == 0 };
        same(&j[d[0]], &render(&j[d[0]].lay, |_, _| s), ctx)
    }));
    // lengths
    let max = t.pick(120u64, 500);
    let radices = [nb, max, 12];
    let j = js.clone();
    v.push(family("lengths", format!("{} files x gaps, indents, trailing space, comments, and inserted blank or comment lines, and what precedes or follows all, of every length or number 1..={}", nb, max), product(&radices), move |i, ctx| {
        let d = digits(i, &radices);
        let n = d[1] + 1;
        let own = |s: &str| s.repeat(n);
        let x = [own(" "), own("\t"), own(" \t"), format!(";{}", own("c")), own("\n"), own("  ; é\n"), own(" "), own(" "), format!("  {}", own("; c\n  ")), own("\t"), own("  \n"), format!("; {}", own("é"))][d[2]].clone();
        let lay = &j[d[0]].lay;
        let mut o = String::new();
        for (k, (indented, pieces, gaps)) in lay.lines.iter().enumerate() {
            if k > 0 && (4..6).contains(&d[2]) {
                o += &x;
            }
            if *indented {
                o += if d[2] < 3 { &x } else { "  " };
            }
            for (m, p) in pieces.iter().enumerate() {
                if m > 0 && (gaps[m] || d[2] == 6) {
                    o += if d[2] < 3 || d[2] == 6 { &x } else { " " };
                }
                o += p;
            }
            if d[2] < 4 {
                o += &x;
            }
            o += "\n";
        }
        match d[2] {
            7..=8 => o += &x,
            9 => o = o.trim_end_matches('\n').to_string() + &x,
            10 => o = x + &o,
            11 => o = format!("{}\n{}{}", x, o, x),
            _ => (),
        }
        same(&j[d[0]], &o, ctx)
    }));
    // what precedes the first and follows the last line
    let tails = ["\n", " ", "\t", "      ", "\r\n", "; c", "  ; é"];
    let (nt, len) = (tails.len() as u64, t.pick(4u32, 6));
    let words = words_count(nt, len);
    let j = js.clone();
    v.push(family("ends", format!("{} files preceded or followed by all sequences of up to {} of {} blanks, comments and line ends", nb, len, nt), words * nb * 2, move |i, ctx| {
        let d = digits(i, &[nb, 2, words]);
        let mut x: String = word(d[2] as u64, nt).iter().map(|k| tails[*k]).collect();
        let b = render(&j[d[0]].lay, |_, _| PLAIN);
        if d[1] == 1 {
            return same(&j[d[0]], &(b.trim_end_matches('\n').to_string() + &x), ctx);
        }
        if x.ends_with([' ', '\t', 'c', 'é']) {
            x += "\n";
        }
        same(&j[d[0]], &(x + &b), ctx)
    }));
    // single deviations and pairs
    let devs: Arc<Vec<(usize, usize, usize, Style<'static>)>> = Arc::new(js.iter().enumerate().flat_map(|(b, j)| deviations(&j.lay, j.crlf).into_iter().map(move |(a, c, s)| (b, a, c, s))).collect());
    let mut offsets: Vec<(u64, usize, usize)> = vec![]; // first pair index, start in devs, count
    let mut total = 0;
    for b in 0..js.len() {
        let s = devs.iter().position(|d| d.0 == b).unwrap();
        let n = devs.iter().filter(|d| d.0 == b).count();
        offsets.push((total, s, n));
        total += (n * n) as u64;
    }
    let (j, dv, off) = (js.clone(), devs.clone(), offsets.clone());
    v.push(family("pairs", format!("every pair of single deviations at any two places of {} files ({} single deviations)", nb, devs.len()), total, move |i, ctx| {
        let b = off.iter().rposition(|o| o.0 <= i).unwrap();
        let (o, s, n) = off[b];
        let (x, y) = (((i - o) / n as u64) as usize, ((i - o) % n as u64) as usize);
        if y > x {
            return Ok(());
        }
        let (_, a1, c1, s1) = dv[s + x];
        let (_, a2, c2, s2) = dv[s + y];
        let text = render(&j[b].lay, |a, c| {
            let mut st = PLAIN;
            if (a, c) == (a1, c1) {
                st = merge(st, s1);
            }
            if (a, c) == (a2, c2) {
                st = merge(st, s2);
            }
            st
        });
        same(&j[b], &text, ctx)
    }));
    if t == Tier::Thorough {
        // each line in its own style, all combinations of three styles a line
        let styles = [PLAIN, Style { gap: "\t", touch: " ", indent: "\t", trail: " ; c", insert: "\n", eol: "\n", last: true }, Style { gap: "  ", touch: "", indent: " ", trail: "\t", insert: "  ; c\n* h\n", eol: "\r\n", last: false }, Style { gap: " ", touch: "", indent: "      ", trail: ";c", insert: "\n  \n", eol: "\n", last: false }];
        let files: Vec<usize> = (0..js.len()).filter(|b| js[*b].lay.lines.len() >= 2).collect();
        let mut off = vec![];
        let mut total = 0u64;
        for b in files {
            off.push((total, b));
            total += (styles.len() as u64).pow(js[b].lay.lines.len() as u32);
        }
        let j = js.clone();
        v.push(family("mixed", "each line of a file in one of four styles, all combinations", total, move |i, ctx| {
            let k = off.iter().rposition(|o| o.0 <= i).unwrap();
            let (o, b) = off[k];
            let d = digits(i - o, &vec![styles.len() as u64; j[b].lay.lines.len()]);
            same(&j[b], &render(&j[b].lay, |a, _| styles[d[a]]), ctx)
        }));
    }
    // the bases themselves are what they should be
    v.push(texts_family("bases", "the files themselves against the reference", strs(&BASES), agree));
    v
}
