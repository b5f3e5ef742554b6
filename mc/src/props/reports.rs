//! C12: reports, errors built by the user, synthetic sources.

use crate::{canon::*, common::*, engine::*, gen, tree::*};
use beancount_parser_lima::*;
use std::sync::Arc;

use super::{history, total};

/// name and content of each source, by number
pub type Srcs = Vec<Option<(String, String)>>;

/// the characters a span covers, without trailing white space; a span that does not fit is empty at the start
fn chars(content: &str, s: Sp) -> std::ops::Range<usize> {
    match content.get(s.1..s.2) {
        Some(t) if s.1 <= s.2 => {
            let t = match t.trim_end() {
                "" => t,
                x => x,
            };
            let a = content[..s.1].chars().count();
            a..a + t.chars().count()
        }
        _ => 0..0,
    }
}

fn strip(s: &[u8]) -> String {
    let s = String::from_utf8_lossy(s);
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// a source in a drawing: shown by name, though several may have the same
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Drawn(usize, String);

impl std::fmt::Display for Drawn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.1)
    }
}

/// the report that a message must give, drawn from these sources
pub fn drawn(m: &Msg, error: bool, srcs: &Srcs) -> String {
    let at = |s: Sp| {
        let (n, c) = srcs[s.0].as_ref().expect("source");
        (Drawn(s.0, n.clone()), chars(c, s))
    };
    let kind = if error { ariadne::ReportKind::Error } else { ariadne::ReportKind::Warning };
    let mut r = ariadne::Report::build(kind, at(m.span)).with_config(ariadne::Config::default().with_color(false)).with_message(&m.message);
    r = r.with_label(ariadne::Label::new(at(m.span)).with_message(&m.reason));
    for (l, s) in &m.contexts {
        r = r.with_label(ariadne::Label::new(at(*s)).with_message(format!("in this {}", l)));
    }
    for (l, s) in &m.related {
        r = r.with_label(ariadne::Label::new(at(*s)).with_message(l));
    }
    let mut w = vec![];
    let all: Vec<(Drawn, String)> = srcs.iter().enumerate().filter_map(|(i, x)| x.clone().map(|(n, c)| (Drawn(i, n), c))).collect();
    r.finish().write(ariadne::sources(all), &mut w).expect("oracle report");
    strip(&w)
}

/// without the drawing library: the first line states kind and message, the second name, line and column
fn head(m: &Msg, error: bool, srcs: &Srcs, got: &str) -> R {
    let (name, content) = srcs[m.span.0].as_ref().expect("source");
    if content.contains(['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\r']) || m.message.contains('\n') {
        return Ok(());
    }
    let a = chars(content, m.span).start;
    let before: Vec<char> = content.chars().take(a).collect();
    let line = 1 + before.iter().filter(|c| **c == '\n').count();
    let col = 1 + before.iter().rev().take_while(|c| **c != '\n').count();
    let kind = if error { "Error" } else { "Warning" };
    let mut l = got.lines();
    let first = l.next().unwrap_or("");
    if first != format!("{}: {}", kind, m.message) {
        return Err(format!("report starts {:?}, expected {:?}", first, format!("{}: {}", kind, m.message)));
    }
    let second = l.next().unwrap_or("");
    let want = format!("{}:{}:{}", name, line, col);
    // a position at the very end of a text without a last line is the drawing library's affair
    if a < content.chars().count() && !second.contains(&want) {
        return Err(format!("report locates {:?}, expected {:?}", second, want));
    }
    for r in m.reason.lines() {
        if !got.contains(r) {
            return Err(format!("report lacks the reason {:?}", r));
        }
    }
    Ok(())
}

fn same(m: &Msg, error: bool, srcs: &Srcs, got: &[u8], annotation: Option<&str>) -> R {
    let got = strip(got);
    let mut want = drawn(m, error, srcs);
    head(m, error, srcs, &got)?;
    if let Some(a) = annotation {
        want += a;
        want += "\n";
    }
    if got != want {
        return Err(format!("report of {:?} is\n{}\nexpected\n{}", m, got, want));
    }
    Ok(())
}

/// a writer that fails after some bytes, takes only some at a time, or is interrupted before each write
struct Picky {
    got: Vec<u8>,
    limit: usize,
    chunk: usize,
    interrupt: bool,
    flip: bool,
}

impl std::io::Write for Picky {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.flip = !self.flip;
        if self.interrupt && self.flip {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.chunk).min(self.limit - self.got.len());
        if n == 0 && !b.is_empty() {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

enum Where<'a> {
    Real(&'a BeancountSources),
    Synth(&'a SyntheticSources<'a>),
}

impl Where<'_> {
    fn write<K: ErrorOrWarningKind>(&self, e: Vec<AnnotatedErrorOrWarning<K>>) -> Result<Vec<u8>, String> {
        let mut w = vec![];
        guarded(|| match self {
            Where::Real(s) => s.write_errors_or_warnings(&mut w, e),
            Where::Synth(s) => s.write_errors_or_warnings(&mut w, e),
        })?
        .map_err(|e| e.to_string())?;
        Ok(w)
    }
    fn report<K: ErrorOrWarningKind>(&self, e: &ErrorOrWarning<K>) -> Result<Vec<u8>, String> {
        let mut w = vec![];
        guarded(|| match self {
            Where::Real(s) => s.write_report::<_, K, _>(&mut w, e),
            Where::Synth(s) => s.write_report::<_, K, _>(&mut w, e),
        })?
        .map_err(|e| e.to_string())?;
        Ok(w)
    }
    fn text<K: ErrorOrWarningKind>(&self, e: &ErrorOrWarning<K>) -> Result<String, String> {
        guarded(|| match self {
            Where::Real(s) => s.error_source_text(e).to_string(),
            Where::Synth(s) => s.error_source_text(e).to_string(),
        })
    }
}

fn check<K: ErrorOrWarningKind + Clone>(e: &ErrorOrWarning<K>, error: bool, w: &Where, srcs: &Srcs) -> R {
    let m = msg(e);
    same(&m, error, srcs, &w.write(vec![AnnotatedErrorOrWarning::from(e.clone())])?, None)?;
    same(&m, error, srcs, &w.report(e)?, None)?;
    let a = "note: é\nsecond line";
    same(&m, error, srcs, &w.write(vec![e.clone().with_annotation(a)])?, Some(a))?;
    let (_, c) = srcs[m.span.0].as_ref().unwrap();
    let want: String = {
        let r = chars(c, m.span);
        c.chars().skip(r.start).take(r.len()).collect()
    };
    let t = w.text(e)?;
    if t != want {
        return Err(format!("source text of {:?} is {:?}, expected {:?}", m, t, want));
    }
    Ok(())
}

const WORDS: &str = " txn balance open close commodity pad event query custom price note document pushtag poptag pushmeta popmeta option options plugin include TRUE FALSE NULL ";
const SIGNS: &str = " | @@ @ {{ }} { } , ~ + - / ( ) # * : ! & ? % ";

/// a message that says what was found, where that is a keyword or a sign, says what is there
fn quotes(m: &Msg, srcs: &Srcs) -> R {
    for (i, a, b) in std::iter::once(&m.span).chain(m.contexts.iter().chain(&m.related).map(|(_, s)| s)) {
        if srcs.get(*i).and_then(|s| s.as_ref()).is_none_or(|(_, c)| c.get(*a..*b).is_none()) {
            return Err(format!("error {:?} {:?} mentions {:?}, which is not part of a source", m.message, m.reason, (i, a, b)));
        }
    }
    // where the message says what it is in, the contexts do
    let mut rest = m.message.as_str();
    while let Some((before, last)) = rest.rsplit_once(" in ") {
        let place = last.split_once(" at ").and_then(|(label, p)| p.split_once("..").and_then(|(a, b)| Some((label, a.parse::<usize>().ok()?, b.parse::<usize>().ok()?))));
        let Some((label, a, b)) = place else { break };
        if !m.contexts.iter().any(|(l, s)| l == label && s.1 == a && s.2 == b) {
            return Err(format!("{:?} has only the contexts {:?}", m.message, m.contexts));
        }
        rest = before;
    }
    let Some((_, x)) = m.message.split_once("found '") else { return Ok(()) };
    let Some((x, _)) = x.split_once('\'') else { return Ok(()) };
    let (_, c) = srcs[m.span.0].as_ref().unwrap();
    let r = chars(c, m.span);
    let t: String = c.chars().skip(r.start).take(r.len()).collect();
    if !t.is_empty() && !t.contains(' ') && (WORDS.contains(&format!(" {} ", t)) || SIGNS.contains(&format!(" {} ", t))) && x != t {
        return Err(format!("{:?} was found where {:?} is", m.message, t));
    }
    // names, dates and strings that are written in one way only
    let string = t.len() > 1 && t.starts_with('"') && t.ends_with('"') && t.matches('"').count() == 2;
    let name = t.starts_with(|c: char| c.is_alphabetic() || "#^".contains(c)) && !t.contains(' ') && !t.contains('"');
    if (string || name) && !t.contains(['\\', '\n', '\r', '\t', '\'']) && !x.starts_with("ERROR") && !m.message.contains(&format!("found '{}'", t)) && !m.message.contains(&format!("found '{}'", t.trim_start_matches(['#', '^']))) {
        return Err(format!("{:?} was found where {:?} is", m.message, t));
    }
    Ok(())
}

/// the plain text form has the message, the reason, and each context besides
fn displayed(d: &str, m: &Msg) -> R {
    let mut rest = d.to_string();
    let mut labels: Vec<&str> = m.contexts.iter().map(|c| c.0.as_str()).collect();
    labels.sort_by_key(|l| std::cmp::Reverse(l.len()));
    for x in [m.message.as_str(), m.reason.as_str()].into_iter().chain(labels) {
        match rest.find(x) {
            Some(at) => rest.replace_range(at..at + x.len(), "\u{0}"),
            None => return Err(format!("displayed as {:?}, without message, reason or contexts of {:?}", d, m)),
        }
    }
    Ok(())
}

/// every error and warning of a parse is reported as it must be
fn reported(sources: &BeancountSources, srcs: &Srcs, ctx: &mut Ctx) -> R {
    let parser = BeancountParser::new(sources);
    let w = Where::Real(sources);
    let (errors, warnings) = match guarded(|| parser.parse())? {
        Ok(ok) => (vec![], ok.warnings),
        Err(e) => (e.errors, e.warnings),
    };
    ctx.trace(1 + (errors.len() + warnings.len()) as u64);
    ctx.outcome(&format!("{} errors, {} warnings", errors.len().min(5), warnings.len().min(5)));
    let mut all = vec![];
    for e in &errors {
        check(e, true, &w, srcs)?;
        let m = msg(e);
        ctx.state(&m);
        all.extend(drawn(&m, true, srcs).into_bytes());
        displayed(&format!("{}", e), &m)?;
        quotes(&m, srcs)?;
    }
    for e in &warnings {
        displayed(&format!("{}", e), &msg(e))?;
        check(e, false, &w, srcs)?;
        ctx.state(&msg(e));
    }
    // all at once, in order
    let mut o = vec![];
    sources.write_errors_or_warnings(&mut o, errors).map_err(|e| e.to_string())?;
    if strip(&o).as_bytes() != all {
        return Err("reports written together differ from those written one by one".into());
    }
    let each: String = warnings.iter().map(|e| drawn(&msg(e), false, srcs)).collect();
    let mut o = vec![];
    sources.write_errors_or_warnings(&mut o, warnings).map_err(|e| e.to_string())?;
    if strip(&o) != each {
        return Err("warnings written together differ from those written one by one".into());
    }
    Ok(())
}

pub fn report_text(text: &str, ctx: &mut Ctx) -> R {
    let sources = BeancountSources::from(text);
    reported(&sources, &vec![Some(("inline".into(), text.into()))], ctx).map_err(|e| format!("{}: {:?}", e, text))
}

/// sources of a tree by number, as the model reads them
fn tree_srcs(tr: &Tree, root: &str) -> Option<Srcs> {
    let t = expect_tree(tr, root)?;
    let mut v: Srcs = vec![None; t.sources.iter().map(|s| s.parsed.id + 1).max().unwrap()];
    for s in t.sources {
        v[s.parsed.id] = Some((s.path, s.content));
    }
    Some(v)
}

/// every element of a directive with its expected description
macro_rules! each {
    ($f:expr, $x:expr, $label:expr) => {
        $f(&$x.error("the reason é"), &$x.warning("the reason é"), $label, sp($x.span()).unwrap())?
    };
}

fn elements(d: &Spanned<Directive>, f: &mut dyn FnMut(&Error, &Warning, &str, Sp) -> R) -> R {
    each!(f, d, kind(d.item()));
    let meta = |m: &Metadata, f: &mut dyn FnMut(&Error, &Warning, &str, Sp) -> R| -> R {
        for t in m.tags() {
            each!(f, t, "tag");
        }
        for t in m.links() {
            each!(f, t, "link");
        }
        for (k, _) in m.key_values() {
            each!(f, k, "key");
        }
        Ok(())
    };
    meta(d.item().metadata(), f)?;
    match d.item().variant() {
        DirectiveVariant::Transaction(t) => {
            each!(f, t.flag(), "flag");
            for p in t.postings() {
                each!(f, p, "posting");
                if let Some(x) = p.flag() {
                    each!(f, x, "flag");
                }
                each!(f, p.account(), "account");
                if let Some(x) = p.amount() {
                    each!(f, x, "amount");
                }
                if let Some(x) = p.currency() {
                    each!(f, x, "currency");
                }
                if let Some(x) = p.cost_spec() {
                    each!(f, x, "cost specification");
                    if let Some(x) = x.per_unit() {
                        each!(f, x, "amount");
                    }
                    if let Some(x) = x.total() {
                        each!(f, x, "amount");
                    }
                    if let Some(x) = x.currency() {
                        each!(f, x, "currency");
                    }
                }
                meta(p.metadata(), f)?;
            }
        }
        DirectiveVariant::Price(p) => {
            each!(f, p.currency(), "currency");
            each!(f, p.amount().number(), "amount");
            each!(f, p.amount().currency(), "currency");
        }
        DirectiveVariant::Balance(b) => {
            each!(f, b.account(), "account");
            each!(f, b.atol().amount().number(), "amount");
        }
        DirectiveVariant::Open(o) => {
            each!(f, o.account(), "account");
            for c in o.currencies() {
                each!(f, c, "currency");
            }
            if let Some(b) = o.booking() {
                each!(f, b, "booking");
            }
        }
        DirectiveVariant::Close(x) => each!(f, x.account(), "account"),
        DirectiveVariant::Commodity(x) => each!(f, x.currency(), "currency"),
        DirectiveVariant::Pad(x) => {
            each!(f, x.account(), "account");
            each!(f, x.source(), "account");
        }
        DirectiveVariant::Document(x) => each!(f, x.account(), "account"),
        DirectiveVariant::Note(x) => each!(f, x.account(), "account"),
        _ => (),
    }
    Ok(())
}

fn built(sources: &BeancountSources, srcs: &Srcs, ctx: &mut Ctx) -> R {
    let parser = BeancountParser::new(sources);
    let Ok(ok) = parser.parse() else {
        ctx.trace(1);
        ctx.outcome("refused");
        return Ok(());
    };
    let w = Where::Real(sources);
    let mut n = 0u64;
    for d in &ok.directives {
        elements(d, &mut |e, wn, label, s| {
            n += 1;
            let em = Msg { message: format!("invalid {}", label), reason: "the reason é".into(), span: s, contexts: vec![], related: vec![] };
            let wm = Msg { message: format!("questionable {}", label), ..em.clone() };
            if msg(e) != em {
                return Err(format!("error on a {} carries {:?}, expected {:?}", label, msg(e), em));
            }
            if msg(wn) != wm {
                return Err(format!("warning on a {} carries {:?}, expected {:?}", label, msg(wn), wm));
            }
            check(e, true, &w, srcs)?;
            check(wn, false, &w, srcs)?;
            displayed(&format!("{}", e), &em)?;
            displayed(&format!("{}", wn), &wm)?;
            let e2 = e.clone().in_context(d);
            let mut m2 = em;
            m2.contexts.push((kind(d.item()).to_string(), sp(d.span()).unwrap()));
            if msg(&e2) != m2 {
                return Err(format!("error on a {} in context carries {:?}, expected {:?}", label, msg(&e2), m2));
            }
            check(&e2, true, &w, srcs)?;
            let w2 = wn.clone().in_context(d).in_contexts(&ok.directives);
            let mut wm2 = Msg { message: wm.message.clone(), ..m2.clone() };
            wm2.contexts.extend(ok.directives.iter().map(|d| (kind(d.item()).to_string(), sp(d.span()).unwrap())));
            if msg(&w2) != wm2 {
                return Err(format!("warning on a {} in contexts carries {:?}, expected {:?}", label, msg(&w2), wm2));
            }
            displayed(&format!("{}", e2), &m2)?;
            displayed(&format!("{}", w2), &wm2)?;
            // one after the other, however alike
            let (x, y) = (w.write(vec![AnnotatedErrorOrWarning::from(e.clone())])?, w.write(vec![AnnotatedErrorOrWarning::from(e2.clone())])?);
            let all = w.write(vec![e.clone().into(), e.clone().into(), e2.clone().into(), e.clone().into(), e2.clone().into(), e2.clone().into()])?;
            if all != [x.as_slice(), &x, &y, &x, &y, &y].concat() {
                return Err(format!("errors on a {} written together differ from those written one by one", label));
            }
            let e3 = e2.related_to(&ok.directives[0]).related_to_all(&ok.directives);
            for d in std::iter::once(&ok.directives[0]).chain(&ok.directives) {
                m2.related.push((kind(d.item()).to_string(), sp(d.span()).unwrap()));
            }
            if msg(&e3) != m2 {
                return Err(format!("related error carries {:?}, expected {:?}", msg(&e3), m2));
            }
            check(&e3, true, &w, srcs)
        })?;
    }
    ctx.trace(n);
    ctx.outcome(&format!("{} elements", n / 5 * 5));
    Ok(())
}

fn built_text(text: &str, ctx: &mut Ctx) -> R {
    for (pre, post) in [("; é日\n", "2025-01-01 close Assets:É\n"), ("2020-01-01 note Assets:日 \"é\n\tü\"\n", "")] {
        let t = format!("{}{}{}", pre, text, post);
        let sources = BeancountSources::from(t.as_str());
        ctx.state(&t);
        built(&sources, &vec![Some(("inline".into(), t.clone()))], ctx).map_err(|e| format!("{}: {:?}", e, t))?;
    }
    Ok(())
}

pub fn c12(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // reports of parse errors and warnings
    v.push(words_family(
        "mistakes",
        "sequences of declarations, most with a mistake",
        &[("", ""), ("; é日😱\n2023-01-01 note Assets:É \"日\n語\"\n", ""), ("\r\n", "2024-01-01 close Assets:A")],
        &[
            "2024-01-02 close Assets:A\n", "2024-01-02 open Assets:日 é\n", "2024-13-01 close Assets:A\n", "2024-01-02 * \"é\" #t #t\n  Assets:A 1 USD\n  Foo:B\n", "poptag #x\n", "pushtag #y\n", "pushmeta kk: \"é\n\"\n", "popmeta zz:\n",
            "option \"é\" \"日\"\n", "option \"booking_method\" \"é\"\n", "include \"é\"\n", "2024-01-02 *\n  kk: 1\n  kk: 2 ; é\n  Assets:A {1, 1}\n", "  é\n", "2024-01-02 balance Assets:A 1/0 USD\n", "option \"long_string_maxlines\" \"1\"\n2024-01-01 note Assets:A \"é\n\"\n", "2024-01-02 query \"é\" \"unterminated\n",
        ],
        t.pick(3, 4),
        "",
        report_text,
    ));
    let signs: Vec<String> = WORDS.split(' ').chain(SIGNS.split(' ')).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    v.push(grid_family_("misplaced", "every keyword and sign in places where most do not belong", vec![
        strs(&["", "2024-01-02 ", "2024-01-02 * ", "2024-01-02 balance ", "2024-01-02 close Assets:A ", "2024-01-02 *\n  Assets:A ", "2024-01-02 *\n  Assets:A 1 {", "2024-01-02 *\n  kk: 1 ", "option ", "popmeta kk", "2024-01-02 price USD (1 "]), signs, strs(&["\n", " é\n", "\n2024-01-03 close Assets:A"]),
    ], report_text));
    let samples: Vec<String> = total::SAMPLES.iter().map(|s| s.to_string()).collect();
    v.push(total::edits("edits", strs(&["é", "\t", "\"", "\u{2028}", "\u{85}", "#", "\n"]), report_text));
    let _ = samples;
    v.push(texts_family("long-strings", "strings of 66 lines in all positions", history::STRPOS.iter().flat_map(|(a, b)| {
        let s = vec!["é"; 66].join("\n");
        [format!("{}{}{}", a, s, b), format!("; é\noption \"long_string_maxlines\" \"3\"\n{}{}{}", a, s, b)]
    }).collect(), report_text));
    // the same in trees
    const F: [&str; 9] = ["2024-01-01 close Assets:A\n", "; é日\n2024-01-01 open\n", "poptag #x\n", "pushtag #y\n", "é 日\n2024-01-01 close Foo:É\n", "include \"none é\"\n", "2024-01-01 note Assets:É \"é\n\" \"b\"\n\n\n2024-01-01 * #e #e\n", "option \"title\" \"a\"\noption \"booking_method\" \"日\"\n", ""];
    v.push(family("files", "root and two included files of 9 contents each, in a directory with multibyte name", 9 * 9 * 9 * 2, |i, ctx| {
        let d = digits(i, &[9, 9, 9, 2]);
        let mut tr = Tree::new(&world());
        tr.file("é/r.bean", &format!("; 日\n{}include \"日.bean\"\ninclude \"d/b.bean\"\n{}", F[d[0]], if d[3] == 0 { "" } else { "pushtag #z\ninclude \"日.bean\"\npoptag #z\n" }));
        tr.file("é/日.bean", F[d[1]]);
        tr.file("é/d/b.bean", F[d[2]]);
        tr.write();
        let srcs = tree_srcs(&tr, "é/r.bean").unwrap();
        let sources = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/é/r.bean", tr.dir))).map_err(|e| e.to_string())?;
        reported(&sources, &srcs, ctx).map_err(|e| format!("{}{}", e, describe(&tr)))
    }));
    // errors built on every element
    v.push(gen::simple_directives("built directives", built_text));
    v.push(grid_family_("built postings", "postings of all kinds", vec![
        strs(&["2024-01-02 ! \"é\" #t ^l\n  "]), strs(&["", "! "]), strs(&["Assets:A", "Expenses:日本:1-a"]), strs(&gen::AMOUNTS), strs(&gen::COSTS[..t.pick(14, 22)]), strs(&["", " @ 3 USD", " @@ 1+2 USD ; é"]), strs(&["\n"]), strs(&gen::POSTMETA),
    ], built_text));
    // sequences of builder operations
    let len = t.pick(4, 6);
    v.push(family("builders", format!("all sequences of up to {} of 8 builder operations on an error and a warning, elements in two files", len), words_count(8, len), |i, ctx| {
        let mut tr = Tree::new(&world());
        tr.file("r.bean", "; é\n2024-01-02 * \"日\" #t\n  Assets:A 1 USD\n  Income:É\ninclude \"b.bean\"\n");
        tr.file("b.bean", "; 日日\n2024-01-03 open Assets:日 USD \"FIFO\"\n");
        tr.write();
        let srcs = tree_srcs(&tr, "r.bean").unwrap();
        let sources = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/r.bean", tr.dir))).map_err(|e| e.to_string())?;
        let parser = BeancountParser::new(&sources);
        let ok = parser.parse().map_err(|e| format!("{:?}", e.errors.iter().map(msg).collect::<Vec<_>>()))?;
        let (txn, open) = (&ok.directives[0], &ok.directives[1]);
        let DirectiveVariant::Transaction(t) = txn.item().variant() else { return Err("no transaction".into()) };
        let DirectiveVariant::Open(o) = open.item().variant() else { return Err("no open".into()) };
        let p: Vec<&Spanned<Posting>> = t.postings().collect();
        let w = word(i, 8);
        fn go<K: ErrorOrWarningKind>(e: ErrorOrWarning<K>, w: &[usize], txn: &Spanned<Directive>, open: &Spanned<Directive>, t: &Transaction, o: &Open, p: &[&Spanned<Posting>], m: &mut Msg) -> ErrorOrWarning<K> {
            let mut e = e;
            let s = |x: &Span| sp(x).unwrap();
            for op in w {
                e = match op {
                    0 => {
                        m.contexts.push(("transaction".into(), s(txn.span())));
                        e.in_context(txn)
                    }
                    1 => {
                        m.contexts.push(("open".into(), s(open.span())));
                        e.in_context(open)
                    }
                    2 => {
                        m.contexts.push(("posting".into(), s(p[0].span())));
                        m.contexts.push(("posting".into(), s(p[1].span())));
                        e.in_contexts(t.postings())
                    }
                    3 => {
                        m.related.push(("account".into(), s(o.account().span())));
                        e.related_to(o.account())
                    }
                    4 => {
                        m.related.push(("posting".into(), s(p[0].span())));
                        m.related.push(("posting".into(), s(p[1].span())));
                        e.related_to_all(t.postings())
                    }
                    5 => {
                        m.related.push(("flag".into(), s(t.flag().span())));
                        e.related_to(t.flag())
                    }
                    6 => e.in_contexts(std::iter::empty::<&Spanned<Flag>>()),
                    _ => e.related_to_all(std::iter::empty::<&Spanned<Flag>>()),
                };
            }
            e
        }
        let mut m = Msg { message: "invalid posting".into(), reason: "r é".into(), span: sp(p[1].span()).unwrap(), contexts: vec![], related: vec![] };
        let e = go(p[1].error("r é"), &w, txn, open, t, o, &p, &mut m);
        if msg(&e) != m {
            return Err(format!("operations {:?} give {:?}, expected {:?}", w, msg(&e), m));
        }
        check(&e, true, &Where::Real(&sources), &srcs).map_err(|e| format!("operations {:?}: {}", w, e))?;
        let a = e.with_annotation("note é");
        if a.annotation() != Some("note é") || msg(&a) != m || msg(&a.error_or_warning) != m {
            return Err(format!("operations {:?}: annotated as {:?}", w, a));
        }
        let mut m = Msg { message: "questionable booking".into(), reason: "".into(), span: sp(o.booking().unwrap().span()).unwrap(), contexts: vec![], related: vec![] };
        let e = go(o.booking().unwrap().warning(""), &w, txn, open, t, o, &p, &mut m);
        if msg(&e) != m {
            return Err(format!("operations {:?} give {:?}, expected {:?}", w, msg(&e), m));
        }
        ctx.trace(w.len() as u64 + 1);
        ctx.state(&w);
        check(&e, false, &Where::Real(&sources), &srcs).map_err(|e| format!("operations {:?}: {}", w, e))
    }));
    // long tokens where none may be
    let ns: Vec<usize> = sizes(t, 100).into_iter().filter(|n| *n > 0).collect();
    v.push(family("long tokens", "an account, tag, link, currency, key, string or plain text of 1..=100 and up to 1100 characters in 4 places it does not belong", ns.len() as u64 * 7 * 4, move |i, ctx| {
        let d = digits(i, &[4, 7, ns.len() as u64]);
        let n = ns[d[2]];
        let x: String = (0..n).map(|k| ['a', 'b', 'c', 'd', 'e', 'f', 'g'][k % 7]).collect();
        let tok = match d[1] {
            0 => format!("Assets:A{}", x),
            1 => format!("#{}", x),
            2 => format!("^{}", x),
            3 => format!("A{}", x.to_uppercase()),
            4 => format!("k{}", x),
            5 => format!("\"é {} 日\"", x),
            _ => format!("\"{}\"", x),
        };
        let (a, b) = [("2024-01-02 close ", "\n"), ("2024-01-02 *\n  Assets:A 1 USD ", "\n"), ("pushtag ", " é\n"), ("2024-01-02 ", " Assets:A\n2024-01-03 close Assets:B\n")][d[0]];
        report_text(&format!("{}{}{}", a, tok, b), ctx)
    }));
    // many mistakes written at once
    let ns: Vec<usize> = sizes(Tier::Quick, t.pick(12, 40)).into_iter().filter(|n| *n < t.pick(300, 1200)).collect();
    v.push(family("many reports", format!("0..={} and up to {} mistakes, each its own, all alike but for the place, or all by the same declaration, and as many warnings, written together", t.pick(12, 40), t.pick(300, 1200)), ns.len() as u64 * 4, move |i, ctx| {
        let (n, m) = (ns[(i / 4) as usize], i % 4);
        let text: String = match m {
            0 => (0..n).map(|k| format!("2024-01-02 close Bad{}:A\n2024-01-02 close Assets:A\n", k)).collect(),
            1 => (0..n).map(|_| "poptag #é\n").collect(),
            2 => format!("2024-01-02 close Assets:A\n{}", (0..n).map(|k| format!("  #t\n  kk: {}\n", k)).collect::<String>()),
            _ => format!("option \"long_string_maxlines\" \"1\"\n{}", (0..n).map(|k| format!("2024-01-02 note Assets:A \"é{}\n\"\n", k)).collect::<String>()),
        };
        report_text(&text, ctx)
    }));
    // many contexts and related elements
    let ns: Vec<usize> = sizes(Tier::Quick, t.pick(20, 70)).into_iter().filter(|n| *n < t.pick(130, 600)).collect();
    v.push(family("many labels", format!("0..={} and up to {} contexts, related elements or both, on lines of their own or on one", t.pick(20, 70), t.pick(130, 600)), ns.len() as u64 * 6, move |i, ctx| {
        let (n, m) = (ns[(i / 6) as usize], i % 6);
        let sep = ["\n", " "][(m % 2) as usize];
        let text: String = (0..n + 1).map(|k| format!("é{:04}{}", k, sep)).collect();
        let at = |k: usize| Span { source: 0, start: k * 7, end: k * 7 + 6 };
        let mut e = spanned(Flag::Asterisk, at(n)).error("why é");
        let mut w = Msg { message: "invalid flag".into(), reason: "why é".into(), span: (0, n * 7, n * 7 + 6), contexts: vec![], related: vec![] };
        for k in 0..n {
            let s = (0, k * 7, k * 7 + 6);
            if m / 2 == 0 || m / 2 == 2 && k % 2 == 0 {
                e = e.in_context(&spanned(Flag::Hash, at(k)));
                w.contexts.push(("flag".into(), s));
            } else {
                e = e.related_to(&spanned(Booking::Fifo, at(k)));
                w.related.push(("booking".into(), s));
            }
        }
        ctx.trace(n as u64);
        ctx.state(&(n, m));
        if msg(&e) != w {
            return Err(format!("{} labels: {:?}, expected {:?}", n, msg(&e), w));
        }
        let sources = BeancountSources::from(text.as_str());
        check(&e, true, &Where::Real(&sources), &vec![Some(("inline".into(), text.clone()))]).map_err(|e| format!("{} labels: {}", n, e))
    }));
    // long spans, far down and far right
    let ns: Vec<usize> = sizes(Tier::Quick, t.pick(12, 70)).into_iter().chain([2000, 4095, 4096, 4097, 10000, 20000]).filter(|n| *n > 0).collect();
    v.push(family("long spans", format!("spans of 1..={} and up to 20000 words on lines of their own or on one (up to 1100), as many words before or none, with a context about all and a related word", t.pick(12, 70)), ns.len() as u64 * 6, move |i, ctx| {
        let (n, m) = (ns[(i / 6) as usize], (i % 6) as usize);
        if m % 2 == 1 && n > 1100 {
            return Ok(());
        }
        let sep = ["\n", " "][m % 2];
        let before = if m / 2 == 1 { n } else { 0 };
        let text: String = (0..before + n + 1).map(|k| format!("é{:05}{}", k, sep)).collect();
        let at = |a: usize, b: usize| Span { source: 0, start: a * 8, end: b * 8 - 1 };
        let mut e = spanned(Flag::Asterisk, at(before, before + n)).error("why é");
        if m / 2 == 2 {
            e = spanned(Flag::Asterisk, at(n, n + 1)).error("why é").in_context(&spanned(Flag::Hash, at(0, n + 1))).related_to(&spanned(Booking::Fifo, at(n / 2, n / 2 + 1)));
        }
        ctx.trace(1);
        ctx.state(&(n, m));
        let sources = BeancountSources::from(text.as_str());
        let srcs = vec![Some(("inline".into(), text.clone()))];
        check(&e, true, &Where::Real(&sources), &srcs).map_err(|e| format!("span of {} words: {}", n, e))?;
        // the same in a synthetic source
        let none = BeancountSources::from("");
        let mut syn = SyntheticSources::new(&none);
        let all = syn.create_synthetic_span("s", &text);
        let e = spanned(Flag::Asterisk, Span { source: all.source, ..at(before, before + n) }).error("why é");
        let mut srcs = vec![Some(("inline".into(), String::new())); all.source];
        srcs.push(Some(("s".into(), text.clone())));
        check(&e, true, &Where::Synth(&syn), &srcs).map_err(|e| format!("synthetic span of {} words: {}", n, e))
    }));
    // any span
    let texts = ["", "a", "é\n日 \n", "a \t\n\n b é ", "😱\r\n\u{3000}x\u{a0}\n", "é", " "];
    let max = 16u64;
    v.push(family("any-span", "every start and end 0..16 over 7 texts, with another such span as context: a span that does not fit is reported at the start", 7 * max * max * 6, move |i, ctx| {
        let d = digits(i, &[7, max, max, 6]);
        let text = texts[d[0]];
        let sources = BeancountSources::from(text);
        let span = |a, b| Span { source: 0, start: a, end: b };
        let e = spanned(Flag::Asterisk, span(d[1], d[2])).error("why é");
        let e = match d[3] {
            0 => e,
            k => e.in_context(&spanned(Flag::Hash, span(k - 1, text.len()))).related_to(&spanned(Booking::Fifo, span(d[1], text.len()))),
        };
        ctx.trace(1);
        ctx.state(&(text, d[1], d[2]));
        check(&e, true, &Where::Real(&sources), &vec![Some(("inline".into(), text.into()))]).map_err(|e| format!("{}: {:?}", e, text))
    }));
    // the writer: every point at which it can fail, and every way in which it can take its bytes
    let texts = ["", "2024-01-02 close Assets:A\n", "é 2024-01-02 clos\n", "2024-01-02 close Assets:A #t #t\n  kk: 1\n  kk: 1\npoptag #ü\n", "option \"title\" \"日\"\noption \"title\" \"b\"\n2024-01-02 note Assets:A \"a\nb\"\n2024-01-03 open Assets:A, USD\n"];
    v.push(family("writers", format!("reports of {} texts, alone and together with an annotated one, to writers that fail after each number of bytes, take 1, 2, 3 or 7 at a time, or are interrupted before each", texts.len()), texts.len() as u64 * 2 * 2, move |i, ctx| {
        let d = digits(i, &[texts.len() as u64, 2, 2]);
        let sources = BeancountSources::from(texts[d[0]]);
        let parser = BeancountParser::new(&sources);
        let syn = SyntheticSources::new(&sources);
        let all = || -> Vec<AnnotatedErrorOrWarning<ErrorKind>> {
            let mut v: Vec<AnnotatedErrorOrWarning<ErrorKind>> = match parser.parse() {
                Ok(_) => vec![],
                Err(e) => e.errors.into_iter().map(AnnotatedErrorOrWarning::from).collect(),
            };
            if d[1] == 1 {
                v.push(spanned(Flag::Asterisk, Span { source: 0, start: 0, end: 0 }).error("why é").with_annotation("note é\nmore"));
            }
            v
        };
        let go = |w: &mut Picky| {
            guarded(|| if d[2] == 0 { sources.write_errors_or_warnings(w, all()) } else { syn.write_errors_or_warnings(w, all()) })
        };
        let fail = |e: String| format!("{}: {:?}", e, texts[d[0]]);
        let mut plain = Picky { got: vec![], limit: usize::MAX, chunk: usize::MAX, interrupt: false, flip: false };
        go(&mut plain).map_err(fail)?.map_err(|e| fail(e.to_string()))?;
        let whole = plain.got;
        ctx.state(&whole);
        for limit in 0..=whole.len() {
            let mut w = Picky { got: vec![], limit, chunk: usize::MAX, interrupt: false, flip: false };
            ctx.trace(1);
            match go(&mut w).map_err(|e| fail(format!("writer that fails after {} bytes: {}", limit, e)))? {
                Ok(()) if limit < whole.len() => return Err(fail(format!("the failure of the writer after {} bytes is not returned", limit))),
                Err(e) if limit == whole.len() => return Err(fail(format!("a writer that takes it all: {}", e))),
                _ => (),
            }
            if !whole.starts_with(&w.got) {
                return Err(fail(format!("writer that fails after {} bytes got something else", limit)));
            }
        }
        for chunk in [1, 2, 3, 7] {
            for interrupt in [false, true] {
                let mut w = Picky { got: vec![], limit: usize::MAX, chunk, interrupt, flip: false };
                ctx.trace(1);
                go(&mut w).map_err(fail)?.map_err(|e| fail(format!("writer that takes {} bytes at a time, interrupted {}: {}", chunk, interrupt, e)))?;
                if w.got != whole {
                    return Err(fail(format!("a writer that takes {} bytes at a time gets something else", chunk)));
                }
            }
        }
        ctx.outcome(if whole.is_empty() { "nothing to write" } else { "written or failed" });
        Ok(())
    }));
    // synthetic sources
    // @ stands for the name of a real source
    let names = ["gén", "n2", "", "@"];
    let frags = ["a", "é日\n", " x \n\n", "", "日", "two\nlines"];
    let k = (names.len() * frags.len()) as u64;
    let sl = t.pick(3, 4);
    for root in 0..2usize {
        v.push(family(if root == 0 { "synthetic over inline" } else { "synthetic over files" }, format!("all sequences of up to {} fragments over {} names and {} texts; after each, every fragment so far is resolved and reported, alone and related to real text", sl, names.len(), frags.len()), words_count(k, sl), move |i, ctx| {
            let text = "; é\n2024-01-02 close Assets:É\n";
            let (sources, mut srcs): (BeancountSources, Srcs) = if root == 0 {
                (BeancountSources::from(text), vec![Some(("inline".into(), text.into()))])
            } else {
                let mut tr = Tree::new(&world());
                tr.file("r.bean", &format!("{}include \"b\"\n", text)).file("b", "2024-01-01 note Assets:A \"日\"\n");
                tr.write();
                (BeancountSources::try_from(std::path::PathBuf::from(format!("{}/r.bean", tr.dir))).map_err(|e| e.to_string())?, tree_srcs(&tr, "r.bean").unwrap())
            };
            let parser = BeancountParser::new(&sources);
            let ok = parser.parse().map_err(|_| "refused".to_string())?;
            let w = word(i, k);
            ctx.state(&w);
            let fail = |e: String| format!("fragments {:?}: {}", w.iter().map(|x| (names[x % names.len()], frags[x / names.len()])).collect::<Vec<_>>(), e);
            let mut syn = SyntheticSources::new(&sources);
            let mut made: Vec<(Sp, String, &str, usize)> = vec![];
            let real = srcs.len();
            let last = srcs[real - 1].as_ref().unwrap().0.clone();
            for x in &w {
                let (n, f) = (names[x % names.len()].replace('@', &last), frags[x / names.len()]);
                // the model: fragments of a name are joined in one text, which is not that of a real source
                let id = match srcs.iter().skip(real).position(|s| matches!(s, Some((m, _)) if *m == n)) {
                    Some(id) => real + id,
                    None => {
                        srcs.push(Some((n.clone(), String::new())));
                        srcs.len() - 1
                    }
                };
                let c = &mut srcs[id].as_mut().unwrap().1;
                let start = c.len();
                c.push_str(f);
                let want = (id, start, c.len());
                let got = syn.create_synthetic_span(&n, f);
                let _ = want; // numbering is the library's affair; what counts is where the span leads
                made.push(((got.source, got.start, got.end), n, f, id));
            }
            ctx.trace(w.len() as u64 + 1);
            let copy = syn.clone();
            let whr = Where::Synth(&copy);
            for (s, n, f, id) in &made {
                let id = *id;
                let span = Span { source: s.0, start: s.1, end: s.2 };
                let r = guarded(|| {
                    let r = copy.resolve_span(&span);
                    (r.file_name.map(|s| s.to_string()), r.content.to_string(), r.start_line, r.end_line)
                })
                .map_err(fail)?;
                // text of the fragment without trailing white space
                let t = if f.trim_end().is_empty() { f } else { f.trim_end() };
                if r.0.as_deref() != Some(n.as_str()) || r.1 != t {
                    return Err(fail(format!("fragment {:?} of {:?} resolves to {:?}", f, n, r)));
                }
                // as the model numbers it, for the report
                let content = &srcs[id].as_ref().unwrap().1;
                let (a, b, _) = super::places::resolution(content, s.1, s.2);
                if content.get(s.1..s.2) == Some(*f) && (r.2, r.3) != (a, b) {
                    return Err(fail(format!("fragment {:?} of {:?} resolves to lines {}..{}, expected {}..{}", f, n, r.2, r.3, a, b)));
                }
                let e = spanned(Flag::Asterisk, span).error("why é");
                let txt = whr.text(&e).map_err(fail)?;
                if txt != t {
                    return Err(fail(format!("source text of fragment {:?} is {:?}", f, txt)));
                }
                if s.0 == id {
                    check(&e, true, &whr, &srcs).map_err(fail)?;
                    let e = e.in_context(&ok.directives[0]).related_to(&ok.directives[ok.directives.len() - 1]);
                    check(&e, true, &whr, &srcs).map_err(fail)?;
                    let e = ok.directives[0].warning("w é").in_context(&spanned(Flag::Asterisk, span));
                    check(&e, false, &whr, &srcs).map_err(fail)?;
                    ctx.outcome("synthetic reports agree");
                }
            }
            // real spans through the synthetic sources
            for d in &ok.directives {
                let a = sources.resolve_span(d.span());
                let b = copy.resolve_span(d.span());
                if (a.file_name, a.start_line, a.end_line, a.content) != (b.file_name, b.start_line, b.end_line, b.content) {
                    return Err(fail("a real span resolves differently through synthetic sources".into()));
                }
                check(&d.error("é"), true, &whr, &srcs).map_err(fail)?;
            }
            // spans that fit no source, here or in the real sources, lead to nothing
            let all = made.iter().map(|m| m.0 .0).max().map_or(real, |m| m.max(real - 1) + 1);
            let mut odd: Vec<(usize, usize, usize)> = vec![];
            for i in [0, 1, 2, 7] {
                odd.push((all + i, 0, i));
            }
            odd.extend([(usize::MAX, 0, 1), (u32::MAX as usize, 1, 2), (1 << 32, 0, 4)]);
            for m in &made {
                let len = srcs[m.3].as_ref().unwrap().1.len();
                odd.extend([(m.0 .0, 0, len + 1), (m.0 .0, len + 1, len + 2), (m.0 .0, len, 0), (m.0 .0, usize::MAX - 1, usize::MAX)]);
                odd.extend((1..len).filter(|b| !srcs[m.3].as_ref().unwrap().1.is_char_boundary(*b)).flat_map(|b| [(m.0 .0, b, len), (m.0 .0, 0, b)]));
            }
            let alone = Where::Real(&sources);
            for (j, o) in odd.iter().enumerate() {
                if o.1 == o.2 && o.0 < all {
                    continue;
                }
                let span = Span { source: o.0, start: o.1, end: o.2 };
                for (x, w) in [&whr, &alone].into_iter().enumerate() {
                    let r = guarded(|| match x {
                        0 => copy.resolve_span(&span).content.to_string(),
                        _ => sources.resolve_span(&span).content.to_string(),
                    });
                    match r {
                        Ok(t) if t.is_empty() => (),
                        r => return Err(fail(format!("span {:?}, which does not fit its source, resolves to {:?}", o, r))),
                    }
                    let e = spanned(Flag::Asterisk, span).error("why é").related_to(&ok.directives[0]);
                    if j < 8 {
                        w.report(&e).map_err(|e| fail(format!("report of {:?}: {}", o, e)))?;
                        w.report(&ok.directives[0].error("é").in_context(&spanned(Flag::Asterisk, span))).map_err(|e| fail(format!("report in {:?}: {}", o, e)))?;
                        let t = w.text(&e).map_err(fail)?;
                        if !t.is_empty() {
                            return Err(fail(format!("source text of {:?} is {:?}", o, t)));
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // synthetic sources over files some of which cannot be read
    let fl = t.pick(4, 5);
    v.push(family("synthetic over faults", format!("all sequences of up to {} includes of files with mistakes, not UTF-8, missing, directories or repeated; 1..=3 synthetic names: reports of the errors are those of the real sources", fl), words_count(5, fl) * 3, move |i, ctx| {
        let w = word(i / 3, 5);
        let mut tr = Tree::new(&world());
        let mut root = "2024-01-01 close é\n".to_string();
        for (n, k) in w.iter().enumerate() {
            match k {
                0 => {
                    root += &format!("include \"f{}\"\n", n);
                    tr.file(&format!("f{}", n), &format!("; é{}\n2024-01-02 note Assets:A{} 日\n", n, n));
                }
                1 => {
                    root += &format!("include \"f{}\"\n", n);
                    tr.bytes(&format!("f{}", n), b"2024-01-01 close Assets:A\n\xff\n");
                }
                2 => root += &format!("include \"f{}\"\n", n),
                3 => {
                    root += &format!("include \"f{}\"\n", n);
                    tr.subdir(&format!("f{}", n));
                }
                _ => root += "include \"f[0-9]\"\n",
            }
        }
        tr.file("r.bean", &root);
        tr.write();
        let fail = |e: String| format!("{}: {}", e, describe(&tr));
        let sources = BeancountSources::try_from(std::path::PathBuf::from(format!("{}/r.bean", tr.dir))).map_err(|e| e.to_string())?;
        let parser = BeancountParser::new(&sources);
        let Err(err) = parser.parse() else { return Err(fail("accepted".into())) };
        let mut syn = SyntheticSources::new(&sources);
        let mut made = vec![];
        for k in 0..=i % 3 {
            let text = format!("synthetic é {}", k);
            made.push((syn.create_synthetic_span(&format!("s{}", k), &text), format!("s{}", k), text));
        }
        ctx.trace(err.errors.len() as u64 + 1);
        ctx.state(&(w.clone(), i % 3));
        for (span, name, text) in &made {
            let r = syn.resolve_span(span);
            if r.content != text || r.file_name != Some(name.as_str()) {
                return Err(fail(format!("fragment {:?} of {:?} resolves to {:?} {:?}", text, name, r.file_name, r.content)));
            }
        }
        for e in &err.errors {
            let span = Report::span(e);
            let (a, b) = (sources.resolve_span(&span), syn.resolve_span(&span));
            if (a.file_name, a.start_line, a.end_line, a.content) != (b.file_name, b.start_line, b.end_line, b.content) {
                return Err(fail(format!("an error in {:?} resolves to {:?} of {:?} through synthetic sources", a.file_name, b.content, b.file_name)));
            }
            let (a, b) = guarded(|| (Where::Real(&sources).report(e), Where::Synth(&syn).report(e))).map_err(fail)?;
            let (a, b) = (a.map_err(fail)?, b.map_err(fail)?);
            if a != b {
                return Err(fail(format!("an error is reported differently through synthetic sources: {:?} / {:?}", String::from_utf8_lossy(&a), String::from_utf8_lossy(&b))));
            }
        }
        ctx.outcome(&format!("{} errors", err.errors.len()));
        Ok(())
    }));
    let _ = Arc::new(0);
    v
}
