//! C10 (spans and their resolution).

use crate::{canon::*, common::*, engine::*, gen, refm, tree::*};
use beancount_parser_lima::*;

/// what resolving a span must give: file name, first and last line, text
pub fn resolution<'a>(content: &'a str, s: usize, e: usize) -> (usize, usize, &'a str) {
    if s > e || e > content.len() || !content.is_char_boundary(s) || !content.is_char_boundary(e) {
        return (1, 1, "");
    }
    let whole = &content[s..e];
    let text = match whole.trim_end() {
        "" => whole,
        t => t,
    };
    let first = 1 + content.as_bytes()[..s].iter().filter(|b| **b == b'\n').count();
    let last = first + text.as_bytes().iter().filter(|b| **b == b'\n').count();
    (first, last, text)
}

fn check_resolution(sources: &BeancountSources, sp: Sp, content: &str, file: Option<&str>) -> R {
    let span = Span { source: sp.0, start: sp.1, end: sp.2 };
    let r = guarded(|| {
        let r = sources.resolve_span(&span);
        (r.file_name.map(|s| s.to_string()), r.start_line, r.end_line, r.content.to_string())
    })?;
    let (a, b, t) = resolution(content, sp.1, sp.2);
    if r != (file.map(|s| s.to_string()), a, b, t.to_string()) {
        return Err(format!("span {:?} resolves to {:?}, expected {:?}", sp, r, (file, a, b, t)));
    }
    Ok(())
}

/// every span of the outcome of an accepted source
fn all_spans(out: &Outcome) -> Vec<Sp> {
    let mut v = vec![];
    for d in &out.directives {
        v.push(d.span);
        v.extend(d.fields.iter().filter_map(|f| f.span));
    }
    v.extend(out.warnings.iter().map(|w| w.span));
    v
}

fn absent_values(exp: &[Canon], out: &Outcome, content: &dyn Fn(usize) -> String) -> R {
    for (a, b) in exp.iter().zip(&out.directives) {
        for f in a.fields.iter().filter(|f| f.span.is_none() && f.val == "null" && f.key.contains("kv:")) {
            let Some(g) = b.fields.iter().find(|g| g.key == f.key) else { continue };
            let key = f.key.replace("kv:", "key");
            let (pre, name) = f.key.split_once("kv:").unwrap();
            let _ = key;
            let k = b.fields.iter().find(|g| g.key == format!("{}key", pre) && g.val == name).and_then(|g| g.span);
            let (Some(v), Some(k)) = (g.span, k) else { return Err(format!("no span for {}", f.key)) };
            let text = content(v.0);
            let eol = text[k.2..].find('\n').map(|n| k.2 + n).unwrap_or(text.len());
            if v.0 != k.0 || v.1 != v.2 || v.1 <= k.2 || v.2 > eol {
                return Err(format!("absent value of {} has span {:?}; its key is at {:?} and the line ends at {}", f.key, v, k, eol));
            }
        }
    }
    Ok(())
}

/// values, spans and their resolution agree with the reference
pub fn placed(text: &str, ctx: &mut Ctx) -> R {
    let exp = refm::expect(text);
    note(ctx, text, &exp);
    let fail = |e: String| if e.contains(&format!("{:?}", text)) { e } else { format!("{}: {:?}", e, text) };
    let sources = BeancountSources::from(text);
    let out = guarded(|| outcome(&sources)).map_err(fail)?;
    refm::compare(text, &exp, &out)?;
    if !exp.ok || exp.unknown {
        return Ok(());
    }
    refm::compare_spans(text, &exp, &out)?;
    absent_values(&exp.directives, &out, &|_| text.to_string()).map_err(fail)?;
    let mut done: Vec<Sp> = all_spans(&out);
    done.sort();
    done.dedup();
    for s in done {
        check_resolution(&sources, s, text, None).map_err(fail)?;
    }
    Ok(())
}

const SURROUND: [(&str, &str, bool); 6] = [
    ("", "", false),
    ("; é日\u{1F600}\n\n2023-01-01 note Assets:É \"日本\n語\" ; ü\n", "; é\n2025-01-01 close Assets:Z\n", false),
    ("\n2023-01-01 close Assets:X\n", "\n\n", true),
    ("option \"title\" \"é\"\n* heading é\n\n", "  \n ", false),
    ("2023-01-01 *\n  Assets:日 1 USD ; é\n    kk: \"é\"\n; x\n\t\n", "pushtag #zz\npoptag #zz\n", false),
    ("\r\n\r\n; é\r\n", "\r\n", true),
];

fn surrounded(text: &str, which: &[usize], ctx: &mut Ctx) -> R {
    for w in which {
        let (pre, post, crlf) = SURROUND[*w];
        let t = format!("{}{}{}", pre, text, post);
        if crlf {
            let t = t.replace("\r\n", "\n").replace('\n', "\r\n");
            placed(&t, ctx)?;
        } else {
            placed(&t, ctx)?;
        }
    }
    Ok(())
}

fn some(text: &str, ctx: &mut Ctx) -> R {
    surrounded(text, &[1, 2], ctx)
}
fn all(text: &str, ctx: &mut Ctx) -> R {
    surrounded(text, &[0, 1, 2, 3, 4, 5], ctx)
}

/// the same with other white space between tokens and trailing comments
fn spaced(text: &str, ctx: &mut Ctx) -> R {
    let t: String = text
        .lines()
        .map(|l| {
            let ind = l.len() - l.trim_start().len();
            format!("{}{} \t ; é comment\n", &l[..ind], l[ind..].replace(' ', " \t "))
        })
        .collect();
    placed(&t, ctx)?;
    let t: String = text.lines().map(|l| format!("{}\t\n", l.replace(' ', "\t"))).collect();
    placed(&t, ctx)
}

/// the last declaration without a newline, and blanks at the end
fn ends(text: &str, ctx: &mut Ctx) -> R {
    let t = text.trim_end();
    for e in ["", " ", "\n\n\n", " ; é", "\r\n", "\n  ; é\n", "\n\t"] {
        placed(&format!("{}{}", t, e), ctx)?;
    }
    Ok(())
}

pub fn c10(t: Tier) -> Vec<Family> {
    let check: Check = t.pick(some as Check, all as Check);
    let mut v = vec![
        gen::simple_directives("directives", all),
        gen::transactions("transactions", check),
        gen::postings("postings", check),
        gen::bodies("bodies", t.pick(3, 4), check),
        gen::metavalues("metadata-values", all),
        gen::customs("custom-values", t.pick(3, 4), check),
        gen::simple_directives("spaced directives", spaced),
        gen::transactions("spaced transactions", spaced),
        gen::metavalues("spaced metadata values", spaced),
        gen::simple_directives("ends of directives", ends),
        gen::metavalues("ends of metadata values", ends),
        gen::bodies("ends of bodies", t.pick(2, 3), ends),
    ];
    v.extend(super::fidelity::coincidences(t, "pool: ", placed));
    // far down, far right
    let max = t.pick(300usize, 1200);
    let fills = ["\n", "\r\n", "; é\n", "* h\n", " \n", "2024-01-01 close Assets:日\n", "2024-01-01 note Assets:A \"é\n\n\"\n", "\t; x\r\n"];
    v.push(family("far-down", format!("a transaction after 0..={} of each of 8 kinds of lines", max), (max as u64 + 1) * 8, move |i, ctx| placed(&format!("{}2024-01-02 * \"p\" \"a\nb\" #t\n  kk: \"é\"\n  Assets:A 1 USD ; x\n", fills[(i % 8) as usize].repeat((i / 8) as usize)), ctx)));
    let gaps = [" ", "\t", "é", "日", "x"];
    v.push(family("far-right", format!("a directive after, with and before 0..={} spaces, tabs and characters", max), (max as u64 + 1) * 5, move |i, ctx| {
        let g = gaps[(i % 5) as usize].repeat((i / 5) as usize);
        if i % 5 < 2 {
            placed(&format!("2024-01-02 *{} \"p\"{}#t{}\n {}kk:{} 1 {} USD {}\n", g, g, g, g, g, g, g), ctx)
        } else {
            placed(&format!("2024-01-02 * \"{}\" \"{}\" #t ; {}\n  Assets:日{} 1 USD ; {}\n    kk: \"{}\"\n; {}\n2024-01-02 close Assets:A\n", g, g, g, g, g, g, g), ctx)
        }
    }));
    let powers = if t == Tier::Quick { vec![1usize << 16, 1 << 17] } else { vec![1 << 15, 1 << 16, 1 << 17, 1 << 20, 1 << 24] };
    v.push(family("far-away", format!("a transaction around byte {:?}, after a long comment line, a long string, or many directives", powers), powers.len() as u64 * 3 * 24, move |i, ctx| {
        let d = digits(i, &[powers.len() as u64, 3, 24]);
        let n = powers[d[0]] - 20 + d[2];
        let pre = match d[1] {
            0 => format!("; {}\n", "x".repeat(n - 3)),
            1 => format!("2024-01-01 note Assets:A \"{}\"\n", "x\n".repeat((n - 28) / 2) + &"x".repeat((n - 28) % 2)),
            _ if n < 1 << 18 => "2024-01-01 close Assets:A\n".repeat(n / 26) + &"\n".repeat(n % 26),
            // placing costs directives times bytes: fewer and longer ones
            _ => format!("2024-01-01 note Assets:A \"{}\"\n", "x".repeat(n / 100 - 28)).repeat(99) + &"\n".repeat(n - n / 100 * 99),
        };
        placed(&format!("{}2024-01-02 * \"p\" \"a\nb\" #t\n  kk: \"é\"\n  Assets:A 1 USD ; x\n", pre), ctx)
    }));
    // elements of pushes are placed at the push
    let pieces = ["pushtag #a\n", "pushtag #cc\n", "poptag #a\n", "pushtag #bb ; é\n", "pushmeta kk: \"日\"\n", "pushmeta kk:\n", "pushmeta mm:  1 USD ; é\n", "popmeta kk:\n", "2024-01-01 close Assets:É #d\n  zz: 1\n", "2024-01-02 *\n  nn: 9\n  Assets:A 1 USD\n"];
    let (np, len) = (pieces.len() as u64, t.pick(4, 6));
    v.push(family("pushes", format!("all sequences of up to {} of {} pushes, pops and directives; what is left over is popped at the end", len, np), words_count(np, len), move |i, ctx| {
        let w = word(i, np);
        let mut text = String::from("; é\n");
        let mut open: Vec<&str> = vec![];
        for x in &w {
            text += pieces[*x];
            let pop = match *x {
                0 => "poptag #a\n",
                1 => "poptag #cc\n",
                3 => "poptag #bb\n",
                4 | 5 => "popmeta kk:\n",
                6 => "popmeta mm:\n",
                2 => {
                    if let Some(p) = open.iter().position(|o| *o == "poptag #a\n") {
                        open.remove(p);
                    }
                    continue;
                }
                7 => {
                    if let Some(p) = open.iter().position(|o| *o == "popmeta kk:\n") {
                        open.remove(p);
                    }
                    continue;
                }
                _ => continue,
            };
            open.push(pop);
        }
        text += "2024-01-02 close Assets:É #d ; é\n  zz: 1\n";
        for p in open.iter().rev() {
            text += p;
        }
        placed(&text, ctx)
    }));
    // option and plugin values
    let opts: Vec<(&str, &str)> = vec![
        ("title", "é T"), ("account_previous_balances", "Opening:É"), ("account_previous_earnings", "Earnings"), ("account_previous_conversions", "C:D"), ("account_current_earnings", "E"), ("account_current_conversions", "F"),
        ("account_unrealized_gains", "G"), ("account_rounding", "R"), ("conversion_currency", "NOTHING"), ("inferred_tolerance_multiplier", "1.5"), ("infer_tolerance_from_cost", "TRUE"), ("render_commas", "FALSE"),
        ("booking_method", "FIFO"), ("plugin_processing_mode", "RAW"), ("long_string_maxlines", "5"),
    ];
    let no = opts.len() as u64;
    let o2 = opts.clone();
    v.push(family("options", "every ordered pair of options with a span, plugins around, 3 layouts", no * no * 3, move |i, ctx| {
        let d = digits(i, &[no, no, 3]);
        let sep = [" ", "\t  ", " "][d[2]];
        let pre = ["", "; é\n", "\r\n"][d[2]];
        let mut text = String::from(pre);
        let mut exp: Vec<(String, Sp)> = vec![];
        for k in [d[0], d[1]] {
            let (n, val) = o2[k];
            text += &format!("option{}\"{}\"{}", sep, n, sep);
            let s = text.len();
            text += &format!("\"{}\"", val);
            exp.retain(|e| e.0 != n);
            exp.push((n.to_string(), (0, s, text.len())));
            text += " ; é\n";
        }
        text += "plugin ";
        let s = text.len();
        text += "\"é.m\"";
        let m = (0, s, text.len());
        text += "  ";
        let s = text.len();
        text += "\"c\n日\"";
        let c = (0, s, text.len());
        text += "\n";
        exp.sort();
        ctx.trace(3);
        ctx.state(&text);
        let sources = BeancountSources::from(text.as_str());
        let parser = BeancountParser::new(&sources);
        let fail = |e: String| format!("{}: {:?}", e, text);
        match parser.parse() {
            Ok(ok) => {
                let mut got = option_spans(&ok.options);
                got.sort();
                if got != exp {
                    return Err(fail(format!("option spans {:?}, expected {:?}", got, exp)));
                }
                let p = &ok.plugins[0];
                let g = (sp(p.module_name().span()), p.config().and_then(|c| sp(c.span())));
                if g != (Some(m), Some(c)) {
                    return Err(fail(format!("plugin spans {:?}, expected {:?}", g, (m, c))));
                }
                for s in got.iter().map(|x| x.1).chain([m, c]) {
                    check_resolution(&sources, s, &text, None).map_err(fail)?;
                }
                ctx.outcome("option spans agree");
            }
            Err(_) if d[0] == d[1] => ctx.outcome("duplicate option refused"),
            Err(e) => return Err(fail(format!("refused: {:?}", e.errors.iter().map(msg).collect::<Vec<_>>()))),
        }
        Ok(())
    }));
    // arbitrary spans over small texts
    let texts = ["", "a", "é", " ", "\n", "a\n", "é\n日 \n", "a \t\n\n b é ", "😱\r\n\u{3000}x\u{a0}\n", "\u{85}é\u{2028}a"];
    let max = 24u64;
    v.push(family("any-span", "every start and end 0..24, and some enormous, over 10 texts, inline, in a file or one included in a file or inline, right and wrong sources", 10 * max * max * 6, move |i, ctx| {
        let d = digits(i, &[10, max, max, 6]);
        let text = texts[d[0]];
        let big = |n: usize| match n {
            22 => usize::MAX,
            23 => usize::MAX / 2,
            n => n,
        };
        let source = [0usize, 0, 1, usize::MAX >> 33, 1, 1][d[3]];
        let s: Sp = (source, big(d[1]), big(d[2]));
        ctx.trace(1);
        ctx.state(&(text, s));
        if d[3] == 1 {
            // in a file
            let mut tr = Tree::new(&world());
            tr.file("r é", text);
            tr.write();
            let p = format!("{}/r é", tr.dir);
            let sources = BeancountSources::try_from(std::path::PathBuf::from(&p)).map_err(|e| e.to_string())?;
            return check_resolution(&sources, s, text, Some(&p)).map_err(|e| format!("{}: {:?}", e, text));
        }
        if d[3] == 5 {
            let mut tr = Tree::new(&world());
            tr.file("r é", text);
            tr.write();
            let p = format!("{}/r é", tr.dir);
            let sources = BeancountSources::from(format!("include \"{}\"\n", p));
            return check_resolution(&sources, s, text, Some(&p)).map_err(|e| format!("{}: {:?}", e, text));
        }
        if d[3] == 4 {
            let mut tr = Tree::new(&world());
            tr.file("root", "include \"d/r é\"\n; é");
            tr.file("d/r é", text);
            tr.write();
            let sources = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/root", tr.dir))).map_err(|e| e.to_string())?;
            return check_resolution(&sources, s, text, Some(&format!("{}/d/r é", tr.dir))).map_err(|e| format!("{}: {:?}", e, text));
        }
        let sources = BeancountSources::from(text);
        if source == 0 {
            let (_, _, c) = resolution(text, s.1, s.2);
            ctx.outcome(if c.is_empty() { "resolves to nothing" } else { "resolves to text" });
            check_resolution(&sources, s, text, None).map_err(|e| format!("{}: {:?}", e, text))
        } else {
            let c = guarded(|| sources.resolve_span(&Span { source: s.0, start: s.1, end: s.2 }).content.to_string())?;
            if !c.is_empty() {
                return Err(format!("a span of an unknown source {:?} resolves to {:?}", s, c));
            }
            Ok(())
        }
    }));
    // what counts as a line end, and what as trailing space
    const C: [&str; 12] = ["a", "é", "😱", " ", "\n", "\r", "\t", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{3000}"];
    let len = t.pick(3, 4);
    v.push(family("line-ends", format!("every span of all texts of up to {} of 12 characters, most of them some kind of space", len), words_count(12, len), move |i, ctx| {
        let text: String = word(i, 12).into_iter().map(|x| C[x]).collect();
        let sources = BeancountSources::from(text.as_str());
        ctx.state(&text);
        for a in 0..=text.len() + 1 {
            for b in 0..=text.len() + 1 {
                ctx.trace(1);
                check_resolution(&sources, (0, a, b), &text, None).map_err(|e| format!("{}: {:?}", e, text))?;
            }
        }
        Ok(())
    }));
    // included files
    let heads = std::sync::Arc::new(gen::headers().into_iter().chain(gen::txn_headers(&["*", "!"])).collect::<Vec<_>>());
    let nh = heads.len() as u64;
    let pre = ["", "; é日\n", "\r\n2024-01-01 note Assets:X \"é\n\"\n"];
    v.push(family("files", "every directive form in the root and in two included files (one in a directory), 3 beginnings of each", nh * 27, move |i, ctx| {
        let d = digits(i, &[nh, 3, 3, 3]);
        let mut tr = Tree::new(&world());
        let h = |k: usize| &heads[(d[0] + k) % heads.len()];
        tr.file("r é.bean", &format!("{}{}\n  kk: \"é\"\ninclude \"日.bean\"\npushtag #zz\ninclude \"d/b.bean\"\npoptag #zz\n{} #z\n", pre[d[1]], h(0), h(1)).replace(" #z", if h(1).contains("custom") { "" } else { " #z" }));
        tr.file("日.bean", &format!("{}{}\n  #t\n", pre[d[2]], h(2)));
        tr.file("d/b.bean", &format!("{}{}\n  kk:\n{}", pre[d[3]], h(3), "2024-01-01 close Assets:É"));
        agree_tree(&tr, "r é.bean", ctx, true)?;
        let t = expect_tree(&tr, "r é.bean").unwrap();
        if !t.exp.ok || t.exp.unknown {
            return Ok(());
        }
        let sources = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/r é.bean", tr.dir))).map_err(|e| e.to_string())?;
        let out = outcome(&sources);
        let fail = |e: String| format!("{}{}", e, describe(&tr));
        let src = |id: usize| t.sources.iter().find(|s| s.parsed.id == id).unwrap();
        absent_values(&t.exp.directives, &out, &|id| src(id).content.clone()).map_err(fail)?;
        for s in all_spans(&out) {
            check_resolution(&sources, s, &src(s.0).content, Some(&src(s.0).path)).map_err(fail)?;
        }
        Ok(())
    }));
    v
}
