//! C09: the result depends only on the input.

use crate::{canon::*, engine::*, gen, seed::*, tree::*};
use beancount_parser_lima::*;
use std::sync::{mpsc, Arc};

use super::{history, total};

/// everything observable of a parse of these sources, as text
pub fn observe(sources: &BeancountSources, parser: &BeancountParser) -> String {
    let mut w = Vec::new();
    let mut s = match parser.parse() {
        Ok(ok) => {
            let mut s = String::new();
            for d in &ok.directives {
                s += &format!("{:?}\n", canon(d));
                let r = sources.resolve_span(d.span());
                s += &format!("{:?} {} {} {:?}\n", r.file_name, r.start_line, r.end_line, r.content);
            }
            s += &format!("{:?}\n{:?}\n", options(&ok.options), option_spans(&ok.options));
            for p in &ok.plugins {
                s += &format!("{:?} {:?} {:?}\n", p.module_name(), p.module_name().span(), p.config().map(|c| (c.item().to_string(), *c.span())));
            }
            s += &format!("{:?}\n", ok.warnings.iter().map(msg).collect::<Vec<_>>());
            sources.write_errors_or_warnings(&mut w, ok.warnings).unwrap();
            s
        }
        Err(e) => {
            let s = format!("{:?}\n{:?}\n", e.errors.iter().map(msg).collect::<Vec<_>>(), e.warnings.iter().map(msg).collect::<Vec<_>>());
            sources.write_errors_or_warnings(&mut w, e.errors).unwrap();
            sources.write_errors_or_warnings(&mut w, e.warnings).unwrap();
            s
        }
    };
    s += &String::from_utf8_lossy(&w);
    s
}

fn whole(input: &Input) -> String {
    let sources = input.sources();
    let parser = BeancountParser::new(&sources);
    observe(&sources, &parser)
}

#[derive(Clone)]
pub enum Input {
    Text(String),
    Root(String),
}

impl Input {
    fn sources(&self) -> BeancountSources {
        match self {
            Input::Text(t) => BeancountSources::from(t.as_str()),
            Input::Root(p) => BeancountSources::try_from(std::path::PathBuf::from(p)).expect("root"),
        }
    }
}

fn differ(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{:?}\n  against\n  {:?}", x, y);
        }
    }
    format!("{} against {} lines", a.lines().count(), b.lines().count())
}

fn across_seeds(input: &Input, seeds: u64, ctx: &mut Ctx, desc: &str) -> R {
    let mut first: Option<String> = None;
    for s in 0..seeds {
        let i = input.clone();
        let (o, order, asked) = with_seed(s, move || {
            let o = whole(&i);
            // a second use in the same thread sees other seeds again
            let o2 = whole(&i);
            (if o == o2 { o } else { format!("repeat differs: {}", differ(&o, &o2)) }, probe_order(4), asked())
        })
        .map_err(|e| format!("{}: {}", e, desc))?;
        if asked == 0 {
            return Err("the hash seeds are not under control".into());
        }
        ctx.outcome(&format!("iteration order {:?}", order));
        ctx.trace(2);
        if let Some(d) = o.strip_prefix("repeat differs: ") {
            return Err(format!("hash seed {}: a second parse differs: {}: {}", s, d, desc));
        }
        match &first {
            None => {
                ctx.state(&o);
                first = Some(o);
            }
            Some(f) if *f != o => return Err(format!("hash seed {} differs from seed 0: {}: {}", s, differ(f, &o), desc)),
            _ => (),
        }
    }
    Ok(())
}

/// a tree with one of several contents in each of five files
fn seed_tree(i: u64) -> (Tree, &'static str) {
    const F: [&str; 12] = [
        "2024-01-01 close Assets:A\n",
        "pushtag #a\npushtag #b\npushmeta kk: 1\npushmeta ll: 2\n",
        "option \"name_assets\" \"Aktiva\"\n2024-01-01 close Aktiva:A\n",
        "option \"title\" \"T\"\noption \"operating_currency\" \"USD\"\n",
        "2024-01-01 close Assets:A extra\n",
        "2024-01-01 close Foo:A\n2024-01-01 open\n",
        "poptag #x\npopmeta yy:\n",
        "include \"none\"\ninclude \"g*/x\"\n",
        "include \"../root\"\n",
        "plugin \"p\"\nplugin \"q\" \"c\"\n",
        "2024-01-01 * \"a\nb\"\n  #t #t ^l ^l\noption \"long_string_maxlines\" \"1\"\n2024-01-01 note Assets:A \"a\nb\"\n",
        "option \"unknown\" \"v\"\noption \"booking_method\" \"x\"\n",
    ];
    let n = F.len() as u64;
    let d = digits(i, &[n, n, n, 4]);
    let mut t = Tree::new(&world());
    let inc = ["include \"x/*\"\n", "include \"x/a\"\ninclude \"x/b\"\ninclude \"x/c\"\n", "pushtag #z\ninclude \"x/c\"\npoptag #z\ninclude \"x/*\"\n", "include \"x/[bc]\"\ninclude \"x/a\"\noption \"title\" \"R\"\n"][d[3]];
    t.file("root", &format!("2024-01-02 close Assets:R\n{}2024-01-01 open Assets:R\n", inc));
    t.file("x/a", F[d[0]]).file("x/b", F[d[1]]).file("x/c", F[d[2]]).file("x/d", "2024-01-01 close Assets:D\n").file("x/e", "2024-01-01 commodity USD\n");
    (t, "root")
}

const PIECES: [&str; 17] = [
    "2024-01-01 * #a #b #c ^a ^b ^c\n  #a\n  #b\n  #c\n  ^a\n  ^b\n  ^c\n",
    "pushtag #a\n", "pushtag #b\n", "pushtag #c\n", "poptag #a\n", "pushmeta aa: 1\n", "pushmeta bb: 2\n", "pushmeta cc: 3\n", "popmeta aa:\n",
    "2024-01-01 close Assets:A #a #b #b\n  #a\n  ^l\n  ^l\n  aa: 5\n", "2024-01-01 *\n  Assets:A 1 USD\n    aa: 1\n    aa: 2\n    bb: 1\n    bb: 2\n    #x\n    #x\n    #y\n    #y\n", "2024-01-01 open Assets:A USD,GBP,USD,GBP\n", "option \"documents\" \"d\"\n", "option \"operating_currency\" \"EUR\"\noption \"operating_currency\" \"USD\"\n", "option \"inferred_tolerance_default\" \"USD:1\"\n", "option \"inferred_tolerance_default\" \"*:2\"\n",
    "2024-01-01 open Asset:A USD USD x:\n",
];

/// inputs of the history, schedule and process families
pub fn battery() -> Vec<Input> {
    let mut v: Vec<Input> = vec![];
    for t in [
        "2024-01-01 close Assets:A\n",
        "2024-01-01 close Assets:A x\n2024-01-02 open Foo:B\n",
        "option \"name_assets\" \"Aktiva\"\noption \"long_string_maxlines\" \"2\"\n2024-01-01 note Aktiva:A \"a\nb\nc\"\n",
        "pushtag #a\npushmeta kk: 1\n2024-01-01 * \"é\" #b\n  Assets:A 1 USD\n",
        "2024-01-01 note Assets:A \"a\nb\nc\"\n2024-01-01 balance Assets:A 1+2*3 USD\n",
        "option \"title\" \"T\"\nplugin \"m\" \"c\"\ninclude \"x\"\n2024-13-01 close Assets:A\n",
    ] {
        v.push(Input::Text(t.into()));
    }
    v
}

pub fn battery_all() -> Vec<Input> {
    let mut v = battery();
    v.extend(total::SAMPLES.iter().map(|s| Input::Text(s.to_string())));
    v.extend(history::OPTIONS.iter().map(|s| Input::Text(s.to_string())));
    v.extend(gen::headers().into_iter().map(|h| Input::Text(format!("{}\n  aa: 1\n  bb: 2\n  #t\n  ^l\n", h))));
    for i in 0..PIECES.len() {
        for j in 0..PIECES.len() {
            v.push(Input::Text(format!("{}{}", PIECES[i], PIECES[j])));
        }
    }
    v
}

/// what a process makes of the whole battery
pub fn dump() -> String {
    let mut s = String::new();
    for i in battery_all() {
        s += &whole(&i);
    }
    s
}

/// one step of a client of the library; two clients' steps are interleaved
enum Step {
    Go,
    Stop,
}

/// a client: read the sources, make a parser, parse, parse again, write, each when told
fn client(input: Input, rx: mpsc::Receiver<Step>, tx: mpsc::Sender<String>) {
    let wait = || matches!(rx.recv(), Ok(Step::Go));
    if !wait() {
        return;
    }
    let sources = input.sources();
    tx.send(String::new()).unwrap();
    if !wait() {
        return;
    }
    let parser = BeancountParser::new(&sources);
    tx.send(String::new()).unwrap();
    if !wait() {
        return;
    }
    let r = parser.parse();
    tx.send(String::new()).unwrap();
    if !wait() {
        return;
    }
    let again = observe(&sources, &parser);
    tx.send(again).unwrap();
    if !wait() {
        return;
    }
    let mut s = String::new();
    let mut w = vec![];
    match r {
        Ok(ok) => {
            for d in &ok.directives {
                s += &format!("{:?}\n", canon(d));
            }
            s += &format!("{:?}\n", options(&ok.options));
            sources.write_errors_or_warnings(&mut w, ok.warnings).unwrap();
        }
        Err(e) => {
            s += &format!("{:?}\n", e.errors.iter().map(msg).collect::<Vec<_>>());
            sources.write_errors_or_warnings(&mut w, e.errors).unwrap();
            sources.write_errors_or_warnings(&mut w, e.warnings).unwrap();
        }
    }
    s += &String::from_utf8_lossy(&w);
    tx.send(s).unwrap();
}
const STEPS: usize = 5;

/// run the clients under a schedule (which client moves next); results per client
fn schedule(inputs: &[Input], order: &[usize]) -> Result<Vec<Vec<String>>, String> {
    std::thread::scope(|s| {
        let mut chans = vec![];
        for (k, i) in inputs.iter().enumerate() {
            let (tx, rx) = mpsc::channel();
            let (rtx, rrx) = mpsc::channel();
            let i = i.clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let _ = guarded(move || client(i, rx, rtx));
                })
                .unwrap();
            chans.push((tx, rrx, k));
        }
        let mut out = vec![vec![]; inputs.len()];
        for c in order {
            chans[*c].0.send(Step::Go).map_err(|_| "client ended early".to_string())?;
            out[*c].push(chans[*c].1.recv().map_err(|_| "client panicked".to_string())?);
        }
        for c in &chans {
            let _ = c.0.send(Step::Stop);
        }
        Ok(out)
    })
}

/// all interleavings of n clients of STEPS steps each
fn schedules(n: usize, steps: usize) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for c in 0..left.len() {
            if left[c] > 0 {
                left[c] -= 1;
                cur.push(c);
                go(left, cur, out);
                cur.pop();
                left[c] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![steps; n], &mut vec![], &mut out);
    out
}

/// a writer that has another client parse in the middle of the report
struct Nested<'a> {
    inner: Vec<u8>,
    other: &'a Input,
    expect: &'a str,
    bad: Option<String>,
    n: usize,
}
impl std::io::Write for Nested<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n <= 6 {
            let o = whole(self.other);
            if o != self.expect {
                self.bad = Some(differ(self.expect, &o));
            }
        }
        self.inner.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn c09(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let seeds = t.pick(6u64, 24);
    v.push(family("trees", format!("5 files included by glob or name, each of 12 contents in 3 of them (errors, options, unclosed pushes, nested includes), 4 roots, {} hash seeds each twice", seeds), 12 * 12 * 12 * 4, move |i, ctx| {
        let (tr, root) = seed_tree(i);
        tr.write();
        let input = Input::Root(format!("{}/{}", tr.dir, root));
        across_seeds(&input, seeds, ctx, &describe(&tr))
    }));
    let n = t.pick(3, 4);
    let k = PIECES.len() as u64;
    v.push(family("pragmas", format!("all sequences of up to {} of {} declarations that gather in hash maps, {} hash seeds each twice", n, k, seeds), words_count(k, n), move |i, ctx| {
        let text: String = word(i, k).iter().map(|x| PIECES[*x]).collect();
        across_seeds(&Input::Text(text.clone()), seeds, ctx, &format!("{:?}", text))
    }));
    // all leftovers: every subset of pushes of several keys and tags
    v.push(family("leftovers", format!("all subsets of 4 pushed tags and 4 pushed keys left over, {} hash seeds", 2 * seeds), 256, move |i, ctx| {
        let mut text = String::new();
        for b in 0..8 {
            if i & (1 << b) != 0 {
                text += &if b < 4 { format!("pushtag #t{}\n", b) } else { format!("pushmeta k{}: {}\n", b, b) };
            }
        }
        text += "2024-01-01 close Assets:A\n";
        across_seeds(&Input::Text(text.clone()), 2 * seeds, ctx, &format!("{:?}", text))
    }));
    // the same place in several files
    v.push(family("leftovers in files", format!("4 files, in each nothing, a tag, a key or both pushed and left at the same places, and a pop without push or not, {} hash seeds", 2 * seeds), 4u64.pow(4) * 2, move |i, ctx| {
        let mut tr = Tree::new(&world());
        for f in 0..4u32 {
            let what = i / 4u64.pow(f) % 4;
            let mut text = String::new();
            if f == 0 {
                text += "include \"f1\"\ninclude \"f[23]\"\n";
            } else {
                text += ";;;;;;;;;;;;;;;;;;;;;;;;;;;;;\n";
            }
            if what & 1 != 0 {
                text += &format!("pushtag #t{}\n", f);
            }
            if what & 2 != 0 {
                text += &format!("pushmeta k{}: {}\n", f, f);
            }
            if i / 256 == 1 {
                text += &format!("poptag #u{}\npopmeta m{}:\n", f, f);
            }
            text += "2024-01-01 close Assets:A\n";
            tr.file(&format!("f{}", f), &text);
        }
        tr.write();
        across_seeds(&Input::Root(format!("{}/f0", tr.dir)), 2 * seeds, ctx, &describe(&tr))
    }));
    // histories: what was parsed before, in the same thread, does not matter
    let b = Arc::new(battery());
    let nb = b.len() as u64;
    let hl = t.pick(4, 6);
    let b1 = b.clone();
    v.push(family("histories", format!("all sequences of {} parses over {} inputs, each with fresh sources, the same sources or the same parser as before", hl, nb), nb.pow(hl) * 3, move |i, ctx| {
        let mode = i % 3;
        let d = digits(i / 3, &vec![nb; hl as usize]);
        let fresh: Vec<String> = b1.iter().map(|x| with_seed(0, || whole(x))).collect::<Result<_, _>>()?;
        let kept: Vec<BeancountSources> = b1.iter().map(|x| x.sources()).collect();
        let parsers: Vec<BeancountParser> = kept.iter().map(BeancountParser::new).collect();
        ctx.trace(hl as u64);
        ctx.state(&(mode, &d));
        for (n, x) in d.iter().enumerate() {
            let o = match mode {
                0 => whole(&b1[*x]),
                1 => observe(&kept[*x], &BeancountParser::new(&kept[*x])),
                _ => observe(&kept[*x], &parsers[*x]),
            };
            if o != fresh[*x] {
                return Err(format!("step {} of history {:?} (mode {}) differs from a fresh parse: {}", n, d, mode, differ(&fresh[*x], &o)));
            }
        }
        ctx.outcome("history agrees with fresh parses");
        Ok(())
    }));
    // once read, what becomes of the files does not matter
    const ROOT: [&str; 9] = ["include \"a\"\n", "include \"b\"\n", "include \"./a\"\n", "include \"s\"\n", "include \"[ab]\"\n", "include \"none\"\n", "pushtag #t\n", "poptag #t\n", "include \"root\"\n"];
    const A: [&str; 4] = ["2024-01-01 open Assets:A\n", "2024-01-01 open Assets:A\ninclude \"b\"\n", "pushmeta kk: 1\n2024-01-01 open Assets:A\ninclude \"d/c\"\npopmeta kk:\n", "2024-01-01 open Assets:\n"];
    const EVENTS: [&str; 8] = ["nothing", "b removed", "all removed", "all emptied", "all with other contents", "other files added", "the directory renamed", "a and b exchanged"];
    let rl = t.pick(3, 4);
    let (nr, na, ne) = (ROOT.len() as u64, A.len() as u64, EVENTS.len() as u64);
    v.push(family("files later", format!("roots of up to {} of {} includes and pushes x {} contents of an included file; read by an absolute or a relative path, then each of {} happens to the files before the first parse, or the current directory changes", rl, nr, na, ne), words_count(nr, rl) * na * ne * 2, move |i, ctx| {
        let d = digits(i, &[ne, 2, na]);
        let w = word(i / (ne * 2 * na), nr);
        let mut tr = Tree::new(&world());
        tr.file("root", &w.iter().map(|x| ROOT[*x]).collect::<String>()).file("a", A[d[2]]).file("b", "2024-01-01 close Assets:A\n").file("d/c", "2024-01-01 commodity USD\n").link("s", "a");
        tr.write();
        let fail = |e: String| format!("{}, {}: {}: {}", EVENTS[d[0]], if d[1] == 0 { "absolute" } else { "relative" }, e, describe(&tr));
        let root = if d[1] == 0 { format!("{}/root", tr.dir) } else { "root".to_string() };
        let read = || {
            let input = Input::Root(root.clone());
            // one that is used at once, and one to be used later
            (guarded(|| whole(&input)), guarded(|| input.sources()))
        };
        let (now, sources) = match d[1] {
            0 => read(),
            _ => match within(&tr, read) {
                Some(x) => x,
                None => return Ok(()),
            },
        };
        let (now, sources) = (now.map_err(fail)?, sources.map_err(fail)?);
        ctx.trace(2);
        ctx.state(&now);
        let at = |f: &str| format!("{}/{}", tr.dir, f);
        let all = ["root", "a", "b", "d/c"];
        let parser = if i / 2 % 2 == 0 { Some(BeancountParser::new(&sources)) } else { None };
        let io = match d[0] {
            1 => std::fs::remove_file(at("b")),
            2 => all.iter().try_for_each(|f| std::fs::remove_file(at(f))),
            3 => all.iter().try_for_each(|f| std::fs::write(at(f), "")),
            4 => all.iter().try_for_each(|f| std::fs::write(at(f), "pushtag #other\ninclude \"b\"\n")),
            5 => ["c", "none", "e", "d/a"].iter().try_for_each(|f| std::fs::write(at(f), "2024-01-01 close Assets:Z\n")),
            6 => std::fs::rename(&tr.dir, format!("{}.moved", tr.dir)),
            7 => std::fs::rename(at("a"), at("x")).and_then(|_| std::fs::rename(at("b"), at("a"))).and_then(|_| std::fs::rename(at("x"), at("b"))),
            _ => Ok(()),
        };
        io.map_err(|e| fail(e.to_string()))?;
        let later = guarded(|| match &parser {
            Some(p) => observe(&sources, p),
            None => observe(&sources, &BeancountParser::new(&sources)),
        });
        if d[0] == 6 {
            std::fs::remove_dir_all(format!("{}.moved", tr.dir)).map_err(|e| fail(e.to_string()))?;
        }
        let later = later.map_err(fail)?;
        if now != later {
            return Err(fail(format!("a parse after that differs: {}", differ(&now, &later))));
        }
        ctx.outcome(EVENTS[d[0]]);
        Ok(())
    }));
    // schedules of concurrent clients at the granularity of API calls
    let sch = Arc::new(schedules(2, STEPS));
    let ns = sch.len() as u64;
    let b2 = b.clone();
    v.push(family("schedules", format!("all {} interleavings of 2 clients of {} API calls each, on threads of their own, over all pairs of {} inputs", ns, STEPS, nb), ns * nb * nb, move |i, ctx| {
        let d = digits(i, &[nb, nb, ns]);
        let inputs = [b2[d[0]].clone(), b2[d[1]].clone()];
        let alone: Vec<Vec<Vec<String>>> = inputs.iter().map(|x| schedule(std::slice::from_ref(x), &[0; STEPS])).collect::<Result<_, _>>()?;
        let out = schedule(&inputs, &sch[d[2]])?;
        ctx.trace(2 * STEPS as u64);
        ctx.state(&(&sch[d[2]], d[0], d[1]));
        ctx.outcome("concurrent clients agree with each alone");
        for c in 0..2 {
            if out[c] != alone[c][0] {
                let k = out[c].iter().zip(&alone[c][0]).position(|(a, b)| a != b).unwrap_or(0);
                return Err(format!("schedule {:?} of inputs {:?}: client {} step {} differs: {}", sch[d[2]], &d[..2], c, k, differ(&alone[c][0][k], &out[c][k])));
            }
        }
        Ok(())
    }));
    if t == Tier::Thorough {
        let sch = Arc::new(schedules(3, 3));
        let ns = sch.len() as u64;
        let b3 = b.clone();
        v.push(family("schedules-3", format!("all {} interleavings of the first 3 API calls of 3 clients over all triples of {} inputs", ns, nb), ns * nb.pow(3), move |i, ctx| {
            let d = digits(i, &[nb, nb, nb, ns]);
            let inputs = [b3[d[0]].clone(), b3[d[1]].clone(), b3[d[2]].clone()];
            // finish each client after the interleaved part
            let mut order = sch[d[3]].clone();
            for c in 0..3 {
                order.extend([c; STEPS - 3]);
            }
            let alone: Vec<Vec<Vec<String>>> = inputs.iter().map(|x| schedule(std::slice::from_ref(x), &[0; STEPS])).collect::<Result<_, _>>()?;
            let out = schedule(&inputs, &order)?;
            ctx.trace(3 * STEPS as u64);
            ctx.state(&(&order, d[0], d[1], d[2]));
            for c in 0..3 {
                if out[c] != alone[c][0] {
                    return Err(format!("schedule {:?} of inputs {:?}: client {} differs", order, &d[..3], c));
                }
            }
            Ok(())
        }));
    }
    // threads that run freely at the same time (not exhaustive; an addition)
    let b4 = b.clone();
    v.push(family("free-running", "8 threads over 6 inputs from a common barrier, rotated; the schedule is the machine's (an addition, not an enumeration)", t.pick(24, 400), move |i, ctx| {
        let n = 8;
        let bar = std::sync::Barrier::new(n);
        let outs: Vec<(usize, Result<Vec<String>, String>)> = std::thread::scope(|s| {
            (0..n)
                .map(|k| {
                    let (bar, b4) = (&bar, &b4);
                    let x = (k + i as usize) % b4.len();
                    (x, s.spawn(move || {
                        bar.wait();
                        guarded(|| (0..5).map(|_| whole(&b4[x])).collect::<Vec<_>>())
                    }))
                })
                .collect::<Vec<_>>()
                .into_iter()
                .map(|(x, h)| (x, h.join().unwrap_or_else(|_| Err("panic".into()))))
                .collect()
        });
        ctx.trace(n as u64 * 5);
        for (x, o) in outs {
            let alone = whole(&b4[x]);
            for o in o? {
                if o != alone {
                    return Err(format!("input {} parsed beside others differs: {}", x, differ(&alone, &o)));
                }
            }
        }
        Ok(())
    }));
    let b5 = b.clone();
    v.push(family("nested", "another input parsed within the writer of a report, all pairs of inputs", nb * nb, move |i, ctx| {
        let d = digits(i, &[nb, nb]);
        let expect = whole(&b5[d[1]]);
        let sources = b5[d[0]].sources();
        let parser = BeancountParser::new(&sources);
        let report = |w: &mut dyn std::io::Write| {
            struct W<'a>(&'a mut dyn std::io::Write);
            impl std::io::Write for W<'_> {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    self.0.write(b)
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            let mut w = W(w);
            match parser.parse() {
                Ok(ok) => sources.write_errors_or_warnings(&mut w, ok.warnings).unwrap(),
                Err(e) => sources.write_errors_or_warnings(&mut w, e.errors).unwrap(),
            }
        };
        let mut plain: Vec<u8> = vec![];
        report(&mut plain);
        let mut nested = Nested { inner: vec![], other: &b5[d[1]], expect: &expect, bad: None, n: 0 };
        report(&mut nested);
        ctx.trace(2);
        if let Some(b) = nested.bad {
            return Err(format!("input {} within the report of {}: {}", d[1], d[0], b));
        }
        if nested.inner != plain {
            return Err(format!("report of input {} disturbed by a parse of {}", d[0], d[1]));
        }
        Ok(())
    }));
    // other processes: another address space layout and other seeds
    v.push(family("processes", format!("{} inputs in {} processes of their own", battery_all().len(), t.pick(16, 64)), t.pick(16, 64), |i, ctx| {
        let exe = std::env::current_exe().unwrap();
        let o = std::process::Command::new(exe).args(["dump", &i.to_string()]).output().map_err(|e| e.to_string())?;
        let here = dump();
        let there = String::from_utf8_lossy(&o.stdout).to_string();
        ctx.trace(battery_all().len() as u64);
        if here != there {
            return Err(format!("process {} differs: {}", i, differ(&here, &there)));
        }
        Ok(())
    }));
    v
}
