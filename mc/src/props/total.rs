//! C01: parsing and reporting are total.

use crate::{canon::*, common::*, engine::*, gen, props::grammar::ANY};
use beancount_parser_lima::*;
use std::fmt::Write as _;

/// everything a user can do with a parse result, on one set of sources; the content of each source is given
pub fn exercise(sources: &BeancountSources, contents: &[&str]) -> Result<String, String> {
    let parser = BeancountParser::new(sources);
    let mut shown = String::new();
    let _ = write!(shown, "{:?}", sources);
    let in_bounds = |what: &str, s: Sp| -> Result<(), String> {
        if contents.is_empty() {
            return Ok(()); // places in several files are judged by C10
        }
        let Some(c) = contents.get(s.0) else { return Err(format!("{}: no source {}", what, s.0)) };
        if s.1 > s.2 || c.get(s.1..s.2).is_none() {
            return Err(format!("{}: span {:?} does not lie within its source on character boundaries", what, s));
        }
        Ok(())
    };
    let check_msg = |m: &Msg| -> Result<(), String> {
        in_bounds(&m.message, m.span)?;
        for (l, s) in m.contexts.iter().chain(&m.related) {
            in_bounds(l, *s)?;
        }
        if m.message.is_empty() || m.reason.is_empty() {
            return Err(format!("error without message or reason at {:?}", m.span));
        }
        Ok(())
    };
    let verdict;
    let mut buf: Vec<u8> = vec![];
    match parser.parse() {
        Ok(ParseSuccess { directives, options, plugins, warnings }) => {
            for (i, d) in directives.iter().enumerate() {
                let _ = write!(shown, "{} {:?}", d, d);
                let c = canon(d);
                in_bounds("directive", c.span)?;
                for f in &c.fields {
                    if let Some(s) = f.span {
                        in_bounds(&f.key, s)?;
                    }
                }
                let r = sources.resolve_span(d.span());
                shown += r.content;
                if i >= 20 {
                    continue;
                }
                sources.write_errors_or_warnings(&mut buf, vec![d.error("anything")]).map_err(|e| e.to_string())?;
            }
            for p in &plugins {
                let _ = write!(shown, "{}", p);
            }
            let _ = write!(shown, "{:?}", options);
            for w in &warnings {
                check_msg(&msg(w))?;
                let _ = write!(shown, "{:?} {}", w, w);
            }
            sources.write_errors_or_warnings(&mut buf, warnings).map_err(|e| e.to_string())?;
            verdict = if directives.is_empty() { "accepted, empty".to_string() } else { "accepted".to_string() };
        }
        Err(ParseError { errors, warnings }) => {
            if errors.is_empty() {
                return Err("refused without an error".into());
            }
            let mut kinds: Vec<String> = vec![];
            for e in &errors {
                let m = msg(e);
                check_msg(&m)?;
                let _ = write!(shown, "{:?} {}", e, e);
                let _ = sources.error_source_text(e);
                let s = e.span();
                let r = sources.resolve_span(&s);
                if r.start_line == 0 || r.end_line < r.start_line {
                    return Err(format!("error lines {}..{}", r.start_line, r.end_line));
                }
                if !kinds.contains(&m.message) {
                    kinds.push(m.message.clone());
                }
            }
            for w in &warnings {
                check_msg(&msg(w))?;
            }
            let n = errors.len();
            sources.write_errors_or_warnings(&mut buf, errors).map_err(|e| e.to_string())?;
            sources.write_errors_or_warnings(&mut buf, warnings).map_err(|e| e.to_string())?;
            if buf.is_empty() {
                return Err(format!("{} errors, but the report is empty", n));
            }
            kinds.sort();
            verdict = format!("refused: {}", kinds.join(", "));
        }
    }
    Ok(verdict)
}

pub fn total(text: &str, ctx: &mut Ctx) -> R {
    ctx.trace(1);
    let v = guarded(|| {
        let sources = BeancountSources::from(text);
        exercise(&sources, &[text])
    })
    .and_then(|r| r)
    .map_err(|e| format!("{}: {:?}", e, text))?;
    ctx.state(&v);
    ctx.outcome(&v);
    ctx.sample(|| format!("{:?} -> {}", text, v));
    Ok(())
}

pub const SPECIAL: [&str; 34] = [
    "\"", "\\", "\n", " ", "\t", "\r", "é", "日", "٢", "\u{85}", "\u{3000}", "\u{a0}", "\0", "😱", ";", "*", "0", "(", ")", "/", ":", "-", "'", "#", "^", "{", "}", "9", "A", "a", "\u{301}", "\u{feff}", ",", ".",
];

pub const SAMPLES: [&str; 14] = [
    "2024-01-02 * \"p\" \"n\" #t ^l\n  kk: \"v\"\n  Assets:A 1,234.50 USD {1 # 2 USD, 2024-02-29, \"l\", *} @@ 3 GBP\n    kk: TRUE\n  ! Income:B -1 USD\n",
    "2024-01-02 balance Assets:A (1+2)*3/4-5 ~ 0.1 USD #t\n  #u\n  ^v\n",
    "2024-01-02 open Assets:A:B USD,GBP \"STRICT\"\n2024-01-02 close Assets:A:B\n",
    "2024-01-02 price USD 1/3 GBP\n2024-01-02 commodity /ES\n  name: \"x\\\"y\\\\\"\n",
    "2024-01-02 pad Assets:A Equity:B ; c\n\n; comment\n2024/01/02 note Assets:A \"x\ny\"\n",
    "2024-01-02 event \"a\" \"b\"\n2024-01-02 query \"q\" \"SELECT \\u0041 \\x41 \\101\"\n",
    "2024-01-02 document Assets:A \"p.pdf\"\n2024-01-02 custom \"t\" 1 USD NULL 2024-01-01 #t ^l Assets:A\n",
    "pushtag #t\npushmeta kk: 1 USD\n2024-01-02 txn\npopmeta kk:\npoptag #t\n",
    "option \"title\" \"t\"\noption \"long_string_maxlines\" \"1\"\nplugin \"m\" \"c\"\n2024-01-01 note Assets:A \"a\nb\"\n",
    "option \"inferred_tolerance_default\" \"*:0.5\"\noption \"operating_currency\" \"USD\"\noption \"name_assets\" \"Aktiva\"\n2024-01-01 open Aktiva:A\n",
    "* heading\n: x\n2024-01-02 'X \"é日\" \"😱\"\n\tAssets:日本 1 USD ; é\r\n\r\n",
    "2024-01-02 open\n  kk: 1\n2024-01-02 * \"a\" \"b\" \"c\"\n  foo\n2024-13-40 close Assets:A\n10:30 12:30:60\n",
    "2024-01-02 *\n  Assets:A {1 USD, 2 USD} #\n  Assets:A 1 @ USD\n  kk: 5/0\n  #x\n  #x\n",
    "include \"nosuch\"\noption \"booking_method\" \"FIFO\"\noption \"booking_method\" \"LIFO\"\npopmeta kk:\npoptag #x\npushtag #z\n",
];

/// one sample with one edit: truncation, deletion, substitution or insertion
pub fn edits(name: &str, alphabet: Vec<String>, check: Check) -> Family {
    let mut index: Vec<(usize, usize)> = vec![]; // sample, char position (== len allowed for insertion)
    let samples: Vec<Vec<char>> = SAMPLES.iter().map(|s| s.chars().collect()).collect();
    for (i, s) in samples.iter().enumerate() {
        for p in 0..=s.len() {
            index.push((i, p));
        }
    }
    // variants per position: truncate, delete, delete the rest of the line, duplicate, substitute k, insert k
    let per = 4 + 2 * alphabet.len() as u64;
    let n = index.len() as u64 * per;
    let bounds = format!(
        "{} sample files, every character position x {{truncate, delete, delete to line end, duplicate, substitute, insert}} x {} replacement strings",
        SAMPLES.len(),
        alphabet.len()
    );
    family(name, bounds, n, move |i, ctx| {
        let (si, p) = index[(i / per) as usize];
        let v = (i % per) as usize;
        let s = &samples[si];
        let pre: String = s[..p].iter().collect();
        let post = |n: usize| -> String { s[(p + n).min(s.len())..].iter().collect() };
        let t = match v {
            0 => pre,
            1 => pre + &post(1),
            2 => {
                let e = s[p..].iter().position(|c| *c == '\n').unwrap_or(s.len() - p);
                pre + &post(e)
            }
            3 => pre.clone() + &s.get(p).map(|c| c.to_string()).unwrap_or_default() + &post(0),
            v if v - 4 < alphabet.len() => pre + &alphabet[v - 4] + &post(1),
            v => pre + &alphabet[v - 4 - alphabet.len()] + &post(0),
        };
        check(&t, ctx)
    })
}

type Repeated = (&'static str, fn(usize) -> String);

/// one very long token or line, or very many lines without content
const LONG: &[Repeated] = &[
    ("blank lines", |n| "\n".repeat(n) + "2024-01-02 close Assets:A\n"),
    ("comments", |n| "; c\n".repeat(n) + "2024-01-02 close Assets:A\n"),
    ("headings", |n| "\n".to_string() + &"* c\n".repeat(n) + "2024-01-02 close Assets:A\n"),
    ("indented comments", |n| "2024-01-02 *\n".to_string() + &"  ; c\n".repeat(n)),
    ("ASCII string", |n| format!("2024-01-02 note Assets:A \"{}\"\n", "a".repeat(n))),
    ("ASCII lines in a string", |n| format!("2024-01-02 note Assets:A \"{}\"\n", "a\n".repeat(n))),
    ("escapes", |n| format!("2024-01-02 note Assets:A \"{}\"\n", "\\n".repeat(n))),
    ("unterminated ASCII string", |n| format!("2024-01-02 note Assets:A \"{}\n", "a ".repeat(n))),
    ("ASCII comment", |n| format!("; {}\n2024-01-02 close Assets:A ; {}\n", "a".repeat(n), "b ".repeat(n))),
    ("ASCII heading", |n| format!("* {}\n2024-01-02 close Assets:A\n", "a".repeat(n))),
    ("long number", |n| format!("2024-01-02 price USD {} GBP\n", "1".repeat(n))),
    ("long fraction", |n| format!("2024-01-02 price USD 0.{} GBP\n", "1".repeat(n))),
    ("long account", |n| format!("2024-01-02 close Assets{}\n", ":A".repeat(n))),
    ("long currency", |n| format!("2024-01-02 commodity {}\n", "A".repeat(n))),
    ("long tag", |n| format!("2024-01-02 * #{}\n", "a".repeat(n))),
    ("long key", |n| format!("2024-01-02 *\n  {}: 1\n", "a".repeat(n))),
    ("spaces", |n| format!("2024-01-02{}close{}Assets:A{}\n", " ".repeat(n), "\t".repeat(n), " ".repeat(n))),
    ("indents", |n| format!("2024-01-02 *\n{}Assets:A\n", " ".repeat(n))),
    ("slashes", |n| format!("2024-01-02 commodity /{}A\n", "0".repeat(n))),
    ("other string", |n| format!("2024-01-02 note Assets:A \"{}\"\n", "é".repeat(n))),
    ("other lines in a string", |n| format!("2024-01-02 note Assets:A \"{}\"\n", "é\n".repeat(n))),
    ("other unterminated string", |n| format!("2024-01-02 note Assets:A \"{}\n", "é ".repeat(n))),
    ("other comment", |n| format!("; {}\n2024-01-02 close Assets:A ; {}\n", "é".repeat(n), "日 ".repeat(n))),
    ("other heading", |n| format!("* {}\n2024-01-02 close Assets:A\n", "é".repeat(n))),
    ("other account", |n| format!("2024-01-02 close Assets:A{}\n", "é".repeat(n))),
];

/// the same in a process of its own
pub fn lengthy(kind: &str, n: usize) -> i32 {
    let Some((_, g)) = LONG.iter().find(|(k, _)| *k == kind) else { return 2 };
    let t = g(n);
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 }) };
    let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || exercise(&BeancountSources::from(t.as_str()), &[t.as_str()]).map(|_| ())).unwrap().join();
    match r {
        Ok(Ok(())) => 0,
        Ok(Err(e)) => {
            println!("{}", e);
            1
        }
        Err(_) => 1,
    }
}

fn length(size: usize) -> Family {
    family("length", format!("{} kinds of very long tokens, lines and runs of lines without content, of {} characters or lines, each in a process with 8 MB of stack", LONG.len(), size), LONG.len() as u64, move |i, ctx| {
        let (kind, _) = LONG[i as usize];
        ctx.trace(1);
        let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["lengthy", kind, &size.to_string()]).output().map_err(|e| format!("cannot run: {}", e))?;
        ctx.state(&kind);
        ctx.outcome(if out.status.success() { "total" } else { "not total" });
        match out.status.code() {
            Some(0) => Ok(()),
            Some(_) => Err(format!("{} x {}: {}{}", size, kind, String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr))),
            None => Err(format!("{} x {}: the process dies ({}): {}", size, kind, out.status, String::from_utf8_lossy(&out.stderr).lines().find(|l| !l.trim().is_empty()).unwrap_or(""))),
        }
    })
}

/// repetition: depth and length must not matter
fn scale(sizes: Vec<usize>) -> Family {
    let gens: Vec<Repeated> = vec![
        ("directives", |n| "2024-01-02 close Assets:A\n".repeat(n)),
        ("pragmas", |n| format!("{}{}", "pushtag #t\n".repeat(n), "poptag #t\n".repeat(n))),
        ("unmatched pops", |n| "poptag #t\npopmeta kk:\n".repeat(n / 10)),
        ("postings", |n| format!("2024-01-02 *\n{}", "  Assets:A 1 USD\n".repeat(n))),
        ("tags", |n| (0..n / 10).fold("2024-01-02 * ".to_string(), |s, i| s + &format!("#t{} ^l{} ", i, i)) + "\n"),
        ("metadata lines", |n| (0..n / 10).fold("2024-01-02 *\n".to_string(), |s, i| s + &format!("  k{}: {}\n", i, i))),
        ("blank lines", |n| "\n".repeat(n) + "2024-01-02 close Assets:A\n"),
        ("comments", |n| "; c\n".repeat(n) + "2024-01-02 close Assets:A\n"),
        ("headings", |n| "\n".to_string() + &"* c\n".repeat(n.min(2000)) + "2024-01-02 close Assets:A\n"),
        ("indented comments", |n| "2024-01-02 *\n".to_string() + &"  ; c\n".repeat(n)),
        ("long string", |n| format!("2024-01-02 note Assets:A \"{}\"\n", "é".repeat(n.min(2000)))),
        ("long lines string", |n| format!("2024-01-02 note Assets:A \"{}\"\n", "é\n".repeat(n.min(2000)))),
        ("escapes", |n| format!("2024-01-02 note Assets:A \"{}\"\n", "\\n".repeat(n))),
        ("unterminated string", |n| format!("2024-01-02 note Assets:A \"{}\n", "é ".repeat(n.min(2000)))),
        ("long number", |n| format!("2024-01-02 price USD {} GBP\n", "1".repeat(n))),
        ("long fraction", |n| format!("2024-01-02 price USD 0.{} GBP\n", "1".repeat(n))),
        ("long account", |n| format!("2024-01-02 close Assets{}\n", ":A".repeat(n))),
        ("long currency", |n| format!("2024-01-02 commodity {}\n", "A".repeat(n))),
        ("long tag", |n| format!("2024-01-02 * #{}\n", "a".repeat(n))),
        ("long key", |n| format!("2024-01-02 *\n  {}: 1\n", "a".repeat(n))),
        ("sum", |n| format!("2024-01-02 price USD 1{} GBP\n", "+1".repeat(n / 10))),
        ("product", |n| format!("2024-01-02 price USD 1{} GBP\n", "*1".repeat(n / 10))),
        ("parentheses", |n| format!("2024-01-02 price USD {}1{} GBP\n", "(".repeat(n / 100), ")".repeat(n / 100))),
        ("open parentheses", |n| format!("2024-01-02 price USD {}1 GBP\n", "(".repeat(n / 100))),
        ("custom values", |n| format!("2024-01-02 custom \"x\"{}\n", " 1 USD".repeat(n))),
        ("currencies", |n| (0..n / 10).fold("2024-01-02 open Assets:A USD".to_string(), |s, i| s + &format!(",A{}", i)) + "\n"),
        ("cost parts", |n| format!("2024-01-02 *\n  Assets:A 1 X {{1{}}}\n", ", USD".repeat(n / 10))),
        ("plugins", |n| "plugin \"m\"\n".repeat(n)),
        ("options", |n| (0..n / 10).fold(String::new(), |s, i| s + &format!("option \"operating_currency\" \"A{}\"\n", i))),
        ("bad lines", |n| "foo bar\n".repeat(n / 10)),
        ("bad characters", |n| "\u{85}".repeat(n / 10)),
        ("spaces", |n| format!("2024-01-02{}close{}Assets:A{}\n", " ".repeat(n), "\t".repeat(n), " ".repeat(n))),
        ("indents", |n| format!("2024-01-02 *\n{}Assets:A\n", " ".repeat(n))),
        ("slashes", |n| format!("2024-01-02 commodity /{}A\n", "0".repeat(n))),
        ("colon lines", |n| "2024-01-02 *\n".to_string() + &"  : c\n".repeat(n / 10)),
    ];
    let ng = gens.len() as u64;
    let bounds = format!("{} kinds of repetition x sizes {:?}", ng, sizes);
    family("scale", bounds, ng * sizes.len() as u64, move |i, ctx| {
        let (name, g) = gens[(i % ng) as usize];
        let n = sizes[(i / ng) as usize];
        let t = g(n);
        ctx.trace(1);
        let v = guarded(|| {
            let sources = BeancountSources::from(t.as_str());
            exercise(&sources, &[t.as_str()])
        })
        .and_then(|r| r)
        .map_err(|e| format!("{} x {}: {}", n, name, e))?;
        ctx.state(&(name, n));
        ctx.outcome(&v);
        Ok(())
    })
}

fn total_file(path: std::path::PathBuf, what: &dyn Fn() -> String, ctx: &mut Ctx) -> R {
    ctx.trace(1);
    let v = guarded(|| match BeancountSources::try_from(path) {
        Ok(sources) => exercise(&sources, &[]),
        Err(e) => Ok(format!("unreadable root: {:?}", e.kind())),
    })
    .and_then(|r| r)
    .map_err(|e| format!("{}: {}", e, what()))?;
    ctx.state(&v);
    ctx.outcome(&v);
    ctx.sample(|| format!("{} -> {}", what(), v));
    Ok(())
}

/// include patterns of any shape, in a directory with every kind of entry
fn patterns(n: u32) -> Family {
    let toks = ["*", "?", "**", "[", "]", "/", "..", ".", "a", "!", "-", "é", "\\\\", "{a,b}", "~", " ", "lo", "\\0", "bad"];
    let k = toks.len() as u64;
    let bounds = format!("include patterns: all words of 0..={} pieces over {:?}, against a directory of files, directories, links to themselves, dangling links and non-UTF-8 content", n, toks);
    family("patterns", bounds, words_count(k, n), move |i, ctx| {
        let w: String = word(i, k).iter().map(|x| toks[*x]).collect();
        if w.starts_with('/') {
            ctx.trace(0);
            return Ok(()); // never leave the scratch directory
        }
        let mut t = crate::tree::Tree::new(&crate::tree::world());
        t.file("1/2/3/m", &format!("include \"{}\"\n2024-01-02 close Assets:A\n", w));
        t.file("1/2/3/a", "include \"*\"\n").file("1/2/3/é", "foo\n").file("1/2/3/[a]", "").bytes("1/2/3/bad", b"\xff\xfe").subdir("1/2/3/a.a");
        t.file("1/2/3/d/a", "include \"../m\"\n").link("1/2/3/lo", "lo").link("1/2/3/d/.a", "nosuch").link("1/2/3/d/..a", "..").file("1/2/a", "\0");
        t.write();
        total_file(format!("{}/1/2/3/m", t.dir).into(), &|| format!("include {:?}", w), ctx)
    })
}

/// files whose bytes are not text
fn contents(n: u32) -> Family {
    let toks: Vec<&'static [u8]> = vec![b"\xff", b"\xc3", b"\xa9", b"\xed\xa0\x80", b"\xf0\x9f", b"\0", b"\xef\xbb\xbf", b"\r", b"\n", b"2024-01-02 close Assets:A\n", b"include \"o\"\n", b"\""];
    let k = toks.len() as u64;
    let per = words_count(k, n);
    family("file bytes", format!("root and included file: all sequences of 0..={} of {} byte strings, valid and invalid UTF-8", n, k), per * 2, move |i, ctx| {
        let w: Vec<u8> = word(i / 2, k).iter().flat_map(|x| toks[*x].to_vec()).collect();
        let mut t = crate::tree::Tree::new(&crate::tree::world());
        if i % 2 == 0 {
            t.bytes("m", &w).file("o", "");
        } else {
            t.file("m", "include \"o\"\n2024-01-02 close Assets:B\n").bytes("o", &w);
        }
        t.write();
        total_file(format!("{}/m", t.dir).into(), &|| format!("{} {:?}", if i % 2 == 0 { "root" } else { "included" }, w), ctx)
    })
}

/// file and directory names that are not UTF-8, beside and above what is included
fn odd_names() -> Family {
    use std::os::unix::ffi::OsStrExt;
    let pats = ["o", "./o", "d/../o", "nosuch", "*", "o*", "?", "d/*", "**/o", "[o]"];
    let names: [&[u8]; 4] = [b"\xff", b"a\xff.beancount", b".\xff", "é".as_bytes()];
    let n = (pats.len() * names.len() * 3) as u64;
    family("file names", "a name of 4 kinds (3 of them not UTF-8), as a neighbour, as the directory of the root, or as the root x 10 include patterns", n, move |i, ctx| {
        let d = digits(i, &[pats.len() as u64, names.len() as u64, 3]);
        let base = std::path::PathBuf::from(crate::tree::world());
        let odd = std::ffi::OsStr::from_bytes(names[d[1]]);
        let dir = if d[2] == 1 { base.join(odd) } else { base.clone() };
        std::fs::create_dir_all(dir.join("d")).unwrap();
        let root = if d[2] == 2 { dir.join(odd) } else { dir.join("m") };
        if d[2] == 0 {
            std::fs::write(dir.join(odd), "2024-01-02 close Assets:C\n").unwrap();
        }
        std::fs::write(&root, format!("include \"{}\"\n2024-01-02 close Assets:A\nfoo\n", pats[d[0]])).unwrap();
        std::fs::write(dir.join("o"), "2024-01-02 close Assets:B\n").unwrap();
        total_file(root.clone(), &|| format!("include {:?} with {:?} as {}", pats[d[0]], odd, ["neighbour", "directory", "root"][d[2]]), ctx)
    })
}

/// read and parse a file and all it includes
pub fn include(root: &str) -> i32 {
    match BeancountSources::try_from(std::path::PathBuf::from(root)) {
        Ok(s) => {
            let _ = BeancountParser::new(&s).parse();
            0
        }
        Err(_) => 1,
    }
}

/// directories that contain links to themselves or to those above
fn loops() -> Family {
    let pats = ["*/x", "*/*/*/*/x", "l0/l0/l0/l0/x", "d/../l0/x", "**/x", "d/**/x", "**"];
    let links: [&[(&str, &str)]; 6] = [&[], &[("l0", ".")], &[("d/l1", "..")], &[("d/l0", "l1"), ("d/l1", "l0")], &[("l0", "d"), ("d/l1", "../e")], &[("l0", "."), ("d/l1", "..")]];
    let n = (pats.len() * links.len()) as u64;
    family("directory loops", "6 arrangements of links among directories x 7 include patterns, each in a process that has 60 s (20 s where it is known not to end)", n, move |i, ctx| {
        let d = digits(i, &[pats.len() as u64, links.len() as u64]);
        let hopeless = d[1] == 5 && pats[d[0]].contains("**");
        if hopeless && d[0] != 4 {
            ctx.trace(0);
            return Ok(()); // like that of number 4, the only one tried
        }
        let mut t = crate::tree::Tree::new(&crate::tree::world());
        t.file("m", &format!("include \"{}\"\n2024-01-02 close Assets:B\n", pats[d[0]])).file("x", "2024-01-02 close Assets:C\n").file("d/x", "2024-01-02 close Assets:D\n").file("e/x", "");
        for (l, to) in links[d[1]] {
            t.link(l, to);
        }
        t.write();
        ctx.trace(1);
        ctx.state(&(d[0], d[1]));
        let mut c = std::process::Command::new(std::env::current_exe().unwrap()).args(["include", &format!("{}/m", t.dir)]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().map_err(|e| e.to_string())?;
        let begin = std::time::Instant::now();
        loop {
            match c.try_wait().map_err(|e| e.to_string())? {
                Some(s) if s.code() == Some(0) => {
                    ctx.outcome("ends");
                    return Ok(());
                }
                Some(s) => return Err(format!("links {:?}, include {:?}: {}", links[d[1]], pats[d[0]], s)),
                None if begin.elapsed().as_secs() >= if hopeless { 20 } else { 60 } => {
                    let _ = c.kill();
                    let _ = c.wait();
                    ctx.outcome("does not end");
                    return Err(format!("links {:?}, include {:?}: does not end", links[d[1]], pats[d[0]]));
                }
                None => std::thread::sleep(std::time::Duration::from_millis(5)),
            }
        }
    })
}

pub fn c01(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let contexts: Vec<(&str, &str)> = vec![
        ("", ""),
        ("2024-01-02 ", "\n"),
        ("2024-01-02 custom \"x\" ", ""),
        ("2024-01-02 *\n  Assets:A ", "\n"),
        ("2024-01-02 *\n  kk: ", ""),
        ("2024-01-02 note Assets:A \"", "\"\n"),
        ("2024-01-02 balance Assets:A 1", " USD"),
        ("option \"", "\" \"x\"\n"),
        ("option \"inferred_tolerance_default\" \"", "\"\n"),
        ("option \"conversion_currency\" \"", "\"\n"),
        ("plugin \"m\"", ""),
        ("2024-01-02 open Assets:", " USD\n"),
    ];
    v.push(words_family("characters", "arbitrary characters", &contexts, &SPECIAL, t.pick(3, 4), "", total));
    v.push(edits("edits", strs(&SPECIAL), total));
    let numeric = ["0", "1", "9", "-", "/", ":", "٢", ".", ",", "१", " "];
    v.push(words_family("digits", "digits of several scripts in dates, times and numbers", &[("", " close Assets:A\n"), ("2024-01-0", " close Assets:A\n"), ("2024-01-02 custom \"x\" ", " USD\n")], &numeric, t.pick(5, 6), "", total));
    v.push(words_family("dates", "date-shaped text", &[("2024", " close Assets:A\n")], &["-", "/", "0", "1", "3", "9", "٢"], t.pick(6, 7), "", total));
    v.push(words_family("times", "time-shaped text", &[("2024-01-02 custom \"x\" ", "\n")], &["0", "2", "6", ":", "٢", "9"], t.pick(6, 8), "", total));
    v.push(words_family("escapes", "escape sequences", &[("2024-01-02 note Assets:A \"", "\"\n"), ("option \"title\" \"", "\"\n")], &["\\", "u", "x", "{", "}", "0", "7", "4", "D", "8", "n", "\"", "\n", "+", "é"], t.pick(4, 6), "", total));
    v.push(words_family("expressions", "arithmetic", &[("2024-01-02 price USD ", " GBP\n"), ("2024-01-02 *\n  Assets:A ", " GBP {\n")], &["0", "0.00", "1", "79228162514264337593543950335", "0.0000000000000000000000000001", "-", "+", "*", "/", "(", ")"], t.pick(5, 6), " ", total));
    v.push(words_family("tokens", "token sequences", &[("", "\n"), ("2024-01-02 ", "\n"), ("2024-01-02 *\n  ", "\n")], &ANY, t.pick(3, 4), " ", total));
    let lines: Vec<&str> = gen::BODY.iter().copied().chain(["2024-01-02 *\n", "pushtag #t\n", "poptag #t\n", "pushmeta kk: 1\n", "foo\n", "  \"\n", "\"\n", "* h\n", "é\n"]).collect();
    v.push(words_family("lines", "sequences of lines", &[("", ""), ("2024-01-02 *\n", "")], &lines, t.pick(3, 4), "", total));
    v.push(patterns(t.pick(3, 4)));
    v.push(contents(t.pick(3, 4)));
    v.push(odd_names());
    v.push(loops());
    v.push(length(t.pick(1_000_000, 4_000_000)));
    v.push(scale(t.pick(vec![100, 1000, 20_000], vec![100, 1000, 20_000, 100_000])));
    if t == Tier::Thorough {
        // pairs of special characters at every position
        let mut two = vec![];
        for a in SPECIAL {
            for b in SPECIAL {
                two.push(format!("{}{}", a, b));
            }
        }
        v.push(edits("edits2", two, total));
    }
    v
}
