//! C08 (includes).

use crate::{common::sizes, engine::*, tree::*};
use std::sync::Arc;

fn close(n: usize) -> String {
    format!("2024-01-0{} close Assets:A{}\n", n, n)
}

/// include texts that lead, or do not, to the few files of the graphs
const TARGETS: [&str; 3] = ["a.bean", "d/b.bean", "d/c.bean"];

/// spellings of a target from the top directory or from d
fn spell(target: usize, from_d: bool, style: usize) -> String {
    let t = TARGETS[target];
    let base = if from_d {
        match t.strip_prefix("d/") {
            Some(x) => x.to_string(),
            None => format!("../{}", t),
        }
    } else {
        t.to_string()
    };
    match style {
        0 => base,
        1 => format!("./{}", base),
        2 => if from_d { format!("../d/{}", base) } else { format!("d/../{}", base) },
        3 => format!("%W/{}", t),
        4 => format!("%W/l{}", target),               // symbolic link at the top
        5 => format!("%W/dl/{}", t.strip_prefix("d/").unwrap_or("../a.bean")), // through a linked directory
        _ => base.replace(".bean", ".bea?"),
    }
}

fn base_tree() -> Tree {
    let w = world();
    let mut t = Tree::new(&w);
    t.link("l0", "a.bean").link("l1", "d/b.bean").link("l2", "%W/d/c.bean").link("dl", "d");
    t
}

pub fn c08(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // all graphs over four files with up to two includes in the root and one (two) in each other, plain spelling
    // choices for an include: none or one of: a, b, c, root
    let n_inc = t.pick([2usize, 1, 1, 1], [2, 2, 2, 1]);
    let slots: usize = n_inc.iter().sum();
    let total = 5u64.pow(slots as u32);
    let ctxs = 4u64;
    v.push(family("graphs", format!("all include graphs over root, a, d/b, d/c with up to {:?} includes in each, each include bare or within pushtag/poptag or pushmeta/popmeta of one of two files", n_inc), total * ctxs, move |i, ctx| {
        let d = digits(i / ctxs, &vec![5; slots]);
        let mode = i % ctxs;
        let mut tr = base_tree();
        let mut k = 0;
        let names = ["root.bean", "a.bean", "d/b.bean", "d/c.bean"];
        for (f, name) in names.iter().enumerate() {
            let from_d = f >= 2;
            let mut text = close(f * 2 + 1);
            for j in 0..n_inc[f] {
                let c = d[k];
                k += 1;
                if c == 0 {
                    continue;
                }
                let target = if c == 4 { if from_d { "../root.bean".to_string() } else { "root.bean".to_string() } } else { spell(c - 1, from_d, 0) };
                let inc = format!("include \"{}\"\n", target);
                text += &match (mode, f, j) {
                    (1, 0, 1) => format!("pushtag #t\n{}poptag #t\n", inc),
                    (2, 1, 0) => format!("pushmeta kk: 1\n{}popmeta kk:\n", inc),
                    (3, 0, 0) => format!("pushtag #t\n{}poptag #t\n", inc),
                    (3, 2, 0) => format!("pushtag #t\n{}poptag #t\n", inc),
                    _ => inc,
                };
            }
            text += &close(f * 2 + 2);
            tr.file(name, &text);
        }
        agree_tree(&tr, "root.bean", ctx, true)
    }));
    // spellings: root includes two targets, and d/b another, in all spellings
    let st = 7u64;
    v.push(family("spellings", "root includes two of three files and d/b one, each in all of 7 spellings (plain, ./, d/../, absolute, by link, through a linked directory, glob)", 3 * st * 3 * st * 3 * st, move |i, ctx| {
        let d = digits(i, &[3, st, 3, st, 3, st]);
        let mut tr = base_tree();
        tr.file("root.bean", &format!("{}include \"{}\"\n{}include \"{}\"\n{}", close(1), spell(d[0], false, d[1]), close(2), spell(d[2], false, d[3]), close(3)));
        tr.file("a.bean", &close(4));
        tr.file("d/b.bean", &format!("{}include \"{}\"\n{}", close(5), spell(d[4], true, d[5]), close(6)));
        tr.file("d/c.bean", &close(7));
        agree_tree(&tr, "root.bean", ctx, false)
    }));
    // the same with contexts around the second include
    let cx = ["", "pushtag #t\n", "pushmeta kk: 1\n", "pushtag #t\npoptag #t\n", "pushmeta kk: 1\npopmeta kk:\n", "pushtag #t\npushtag #t\n", "pushtag #u\npushmeta kk: 2\n"];
    let undo = ["", "poptag #t\n", "popmeta kk:\n", "", "", "poptag #t\npoptag #t\n", "popmeta kk:\npoptag #u\n"];
    let nc = cx.len() as u64;
    v.push(family("contexts", "two includes of the same file, in all of 7 contexts each, 3 spellings, and a third nested in that file's neighbour", nc * nc * 3 * nc * 2, move |i, ctx| {
        let d = digits(i, &[nc, nc, 3, nc, 2]);
        let mut tr = base_tree();
        tr.file(
            "root.bean",
            &format!(
                "{}include \"a.bean\"\n{}{}include \"d/b.bean\"\n{}include \"{}\"\n{}{}",
                cx[d[0]], undo[d[0]], if d[4] == 1 { cx[d[1]] } else { "" }, if d[4] == 0 { cx[d[1]] } else { "" }, spell(0, false, d[2]), undo[d[1]], close(1)
            ),
        );
        tr.file("a.bean", &close(2));
        tr.file("d/b.bean", &format!("{}include \"../a.bean\"\n{}{}", cx[d[3]], undo[d[3]], close(3)));
        agree_tree(&tr, "root.bean", ctx, false)
    }));
    // pushes that remain in force from one file into the next
    let pieces = ["", "pushtag #t\n", "poptag #t\n", "include \"a.bean\"\n", "include \"d/b.bean\"\n", "2024-01-01 close Assets:A\n"];
    let np = pieces.len() as u64;
    let len = t.pick(5, 6);
    v.push(family("in-place", format!("root of {} pieces over push, pop, include, directive; an included file that pushes", len), np.pow(len) * 2, move |i, ctx| {
        let d = digits(i / 2, &vec![np; len as usize]);
        let mut tr = base_tree();
        tr.file("root.bean", &d.iter().map(|x| pieces[*x]).collect::<String>());
        tr.file("a.bean", if i % 2 == 0 { "2024-01-01 close Assets:B\npushtag #t\n2024-01-01 close Assets:C\n" } else { "2024-01-01 close Assets:B\npoptag #t\n2024-01-01 close Assets:C\n" });
        tr.file("d/b.bean", "2024-01-01 close Assets:D\n");
        agree_tree(&tr, "root.bean", ctx, false)
    }));
    // glob patterns
    let pats = [
        "*", "*.bean", "g*.bean", "g?.bean", "g??.bean", "g[12].bean", "g[!1].bean", "g[1-9].bean", "g[a-z].bean", "*/g1.bean", "*/*.bean", "e/*.bean", "e/*", "?/*.bean", "**/g1.bean", "**/*.bean", "e/**/*.bean", "g1.bean", "g1*", "*1.bean", ".h.bean", "e/f/*.bean", "[", "g[", "g[]", "a**", "***", "g**.bean", "**", "nomatch*.bean", "none.bean", "none/*.bean", "*.BEAN", "G1.bean", "e", "e/", "./*.bean", "e/../*.bean", "%W/g*.bean", "[g]1.bean", "*/../g1.bean", "", ".", "..", "g1.bean/x", "e/[f]/*.bean", "g[1", "g]1.bean", "g[[]1].bean", "g1.bean ",
    ];
    let npat = pats.len() as u64;
    v.push(family("globs", format!("root includes one or two of {} patterns over a tree of 8 files, hidden ones and links included", npat), npat * (npat + 1), move |i, ctx| {
        let (a, b) = (pats[(i % npat) as usize], (i / npat) as usize);
        let mut tr = Tree::new(&world());
        let mut root = format!("{}include \"{}\"\n", close(1), a);
        if b > 0 {
            root += &format!("include \"{}\"\n", pats[b - 1]);
        }
        tr.file("root", &root);
        // distinct dates: the order within ** is not specified
        for (k, p) in ["g1.bean", "g2.bean", "g10.bean", "gx.bean", ".h.bean", "e/g1.bean", "e/f/g1.bean", "e/f/g3.bean", "g[1].bean"].iter().enumerate() {
            tr.file(p, &format!("2024-02-{:02} close Assets:G{}\n", k + 1, k));
        }
        tr.link("h1.bean", "g1.bean");
        agree_tree(&tr, "root", ctx, false)
    }));
    // name order within a glob: same dates
    let names = ["a", "b", "B", "a1", "a10", "a2", "é", "_"];
    v.push(family("glob-order", "all subsets of 8 file names under * and [..]*, same date, tags pushed by one seen by the next", 256 * 3, move |i, ctx| {
        let mut tr = Tree::new(&world());
        let mask = i / 3;
        tr.file("root", &format!("include \"x/{}\"\n2024-01-01 close Assets:Z\n", ["*", "*.b", "[!z]*.b"][(i % 3) as usize]));
        tr.subdir("x");
        for (k, n) in names.iter().enumerate() {
            if mask & (1 << k) != 0 {
                tr.file(&format!("x/{}.b", n), &format!("2024-01-01 close Assets:{}{}\n", ["A", "B", "C", "D", "E", "F", "G", "H"][k], k));
            }
        }
        agree_tree(&tr, "root", ctx, false)
    }));
    // faults of any file of a graph
    let faults = 13u64;
    v.push(family("faults", "root includes a and d/b, a includes d/c, d/b includes a; each file sound or with one of 12 faults, includes by name or glob, the root sound or with a character that is no token before the includes", faults.pow(3) * 6, move |i, ctx| {
        let d = digits(i, &[faults, faults, faults, 3, 2]);
        let mut tr = base_tree();
        let (a, b) = [("a.bean", "d/b.bean"), ("a*", "d/b*"), ("./a.bean", "*/b.bean")][d[3]];
        tr.file("root.bean", &format!("{}include \"{}\"\n{}include \"{}\"\n", ["", "\u{20ac}\n2024-01-01 close Assets:A\n"][d[4]], a, close(1), b));
        let mut put = |name: &str, f: usize, sound: String| {
            match f {
                0 => tr.file(name, &sound),
                1 => &mut tr, // missing
                2 => tr.subdir(name),
                3 => tr.bytes(name, b"2024-01-01 close Assets:A\n\xff\xfe\n"),
                4 => tr.link(name, "nowhere"),
                5 => tr.link(name, name.rsplit('/').next().unwrap()), // to itself
                6 => tr.file(name, &format!("{}2024-01-01 open\n", sound)),
                7 => tr.file(name, &format!("{}include \"none\"\n", sound)),
                8 => tr.file(name, &format!("{}poptag #zz\n", sound)),
                9 => tr.link(name, if name.contains('/') { "../root.bean" } else { "root.bean" }),
                10 => tr.file(name, ""),
                11 => tr.file(name, &format!("2024-01-01 \u{20ac} close\n{}", sound)),
                _ => tr.file(name, &format!("{}include \"{}\"\n", sound, name.rsplit('/').next().unwrap())), // itself
            };
        };
        put("a.bean", d[0], format!("{}include \"d/c.bean\"\n", close(2)));
        put("d/b.bean", d[1], format!("{}include \"../a.bean\"\n", close(3)));
        put("d/c.bean", d[2], close(4));
        agree_tree(&tr, "root.bean", ctx, false)
    }));
    // unusual names
    let odd = Arc::new(["a b.bean", "é日.bean", "[x].bean", "a*b", "q?", "#t", "a\\\\b", "-", "~", "%", "a;b.bean", "'q'", "..x", "x.."]);
    let dirs = ["", "p q/", "[d]/", "d*/", "é/", "a]b/", "{x}/"];
    v.push(family("names", "unusual file names in unusual directories, root in such a directory, nested include", 14 * 7 * 7, move |i, ctx| {
        let d = digits(i, &[14, 7, 7]);
        let name = odd[d[0]].replace("\\\\", "\\");
        let mut tr = Tree::new(&world());
        let esc = |s: &str| -> String { s.replace('[', "[[]").replace("]b", "]b") };
        // metacharacters in the text of the include are a pattern, so they are written as classes
        let pat = |s: &str| -> String {
            let mut o = String::new();
            for c in s.chars() {
                match c {
                    '[' | '*' | '?' => o += &format!("[{}]", c),
                    '\\' => o += "\\\\",
                    c => o.push(c),
                }
            }
            o
        };
        let _ = esc;
        tr.file(&format!("{}root.bean", dirs[d[1]]), &format!("include \"{}{}\"\n{}", pat(dirs[d[2]]), pat(&name), close(1)));
        tr.file(&format!("{}{}{}", dirs[d[1]], dirs[d[2]], name), &format!("{}include \"sub/in.bean\"\n", close(2)));
        tr.file(&format!("{}{}sub/in.bean", dirs[d[1]], dirs[d[2]]), &close(3));
        agree_tree(&tr, &format!("{}root.bean", dirs[d[1]]), ctx, true)
    }));
    // the root itself
    v.push(family("roots", "root missing, a directory, not UTF-8, empty, a link, a dangling link, given with detours, including itself by any spelling", 24, |i, ctx| {
        let mut tr = base_tree();
        tr.file("a.bean", &close(1));
        tr.file("d/b.bean", &close(2));
        tr.file("d/c.bean", &close(3));
        let root = match i {
            0 => "missing.bean",
            1 => "d",
            2 => {
                tr.bytes("bad.bean", b"\xff");
                "bad.bean"
            }
            3 => {
                tr.file("empty.bean", "");
                "empty.bean"
            }
            4 => "l0",
            5 => {
                tr.link("dang", "nowhere");
                "dang"
            }
            6 => "d/../a.bean",
            7 => "./a.bean",
            8 => "dl/b.bean",
            9 => {
                tr.link("cyc", "cyc");
                "cyc"
            }
            10 => {
                tr.bytes("trunc.bean", "2024-01-01 note Assets:A \"é".as_bytes().split_last().unwrap().1);
                "trunc.bean"
            }
            n => {
                let incs = ["root.bean", "./root.bean", "d/../root.bean", "%W/root.bean", "rl", "*.bean", "r*", "root.bea?", "dl/../root.bean", "**/root.bean", "d/b.bean", "d/up.bean", "../t/roo[t].bean"];
                tr.link("rl", "root.bean");
                tr.file("d/up.bean", "include \"../root.bean\"\n");
                tr.file("root.bean", &format!("{}include \"{}\"\n{}", close(4), incs[n as usize - 11], close(5)));
                "root.bean"
            }
        };
        agree_tree(&tr, root, ctx, false)
    }));
    // the root by one spelling, an include leading back to it by another
    const SPELL: [&str; 8] = ["root.bean", "./root.bean", "d/../root.bean", "rl", "d/rl", "d/../d/rl", "dl/rl", "dl/../root.bean"];
    const BACK: [&str; 16] = ["root.bean", "./root.bean", "../root.bean", "d/../root.bean", "%W/root.bean", "%W/d/../root.bean", "rl", "../rl", "d/rl", "*", "r*", "../r*", "./*/rl", "d/up.bean", "up.bean", "../d/up.bean"];
    v.push(family("way back", format!("the root given as each of {:?} (links among them), including each of {:?}, twice or between directives", SPELL, BACK), SPELL.len() as u64 * 16 * 2, move |i, ctx| {
        let d = digits(i, &[2, 16, SPELL.len() as u64]);
        let mut tr = base_tree();
        tr.file("a.bean", &close(1));
        tr.file("d/b.bean", &close(2));
        tr.file("d/c.bean", &close(3));
        tr.link("rl", "root.bean");
        tr.link("d/rl", "../root.bean");
        tr.file("d/up.bean", &format!("{}include \"../root.bean\"\n", close(6)));
        let inc = format!("include \"{}\"\n", BACK[d[1]]);
        tr.file("root.bean", &format!("{}{}{}{}", close(4), inc, close(5), if d[0] == 1 { inc.as_str() } else { "" }));
        agree_tree(&tr, SPELL[d[2]], ctx, false)
    }));
    // a fault at the end of a chain, which goes down, sideways or stays where it is
    v.push(family("far faults", "a fault of each of 8 kinds in the last of a chain of 1..=9 files, all in one directory, each in one below the last or beside it; in each file, a directive after the include", 9 * 8 * 3, |i, ctx| {
        let d = digits(i, &[9, 8, 3]);
        let mut tr = Tree::new(&world());
        let n = d[0] + 1;
        let path = |k: usize| match d[2] {
            0 => format!("f{}", k),
            1 => format!("{}f{}", "s/".repeat(k), k),
            _ => if k == 0 { "f0".to_string() } else { format!("x{}/f{}", k, k) },
        };
        let to = |k: usize| match d[2] {
            0 => format!("f{}", k),
            1 => format!("s/f{}", k),
            _ => if k == 1 { "x1/f1".to_string() } else { format!("../x{}/f{}", k, k) },
        };
        for k in 0..n {
            tr.file(&path(k), &format!("2024-01-01 close Assets:A{}\ninclude \"{}\"\n2024-01-01 close Assets:B{}\n", k, to(k + 1), k));
        }
        let last = path(n);
        match d[1] {
            0 => &mut tr,
            1 => tr.subdir(&last),
            2 => tr.bytes(&last, b"2024-01-01 close Assets:A\n\xff\xfe\n"),
            3 => tr.link(&last, "nowhere"),
            4 => tr.file(&last, "2024-01-01 open\n"),
            5 => tr.file(&last, "include \"none*\"\ninclude \"[\"\n"),
            6 => tr.file(&last, "pushtag #t\npoptag #u\n"),
            _ => tr.link(&last, "%W/f0"),
        };
        agree_tree(&tr, "f0", ctx, false)
    }));
    // after the return from an include, paths are again relative to the file that goes on
    let levels = t.pick(5usize, 6);
    let total = 3u64.pow(levels as u32) << levels;
    v.push(family("returns", format!("a chain of {} files, each in the directory of the last, below or beside it, of which any include another of the same name after the return", levels), total, move |i, ctx| {
        let styles = digits(i >> levels, &vec![3; levels]);
        let mut tr = Tree::new(&world());
        let mut dir: Vec<String> = vec![];
        let mut all: Vec<(String, usize)> = vec![];
        for k in 0..=levels {
            let at = dir.iter().map(|x| format!("{}/", x)).collect::<String>();
            if !all.iter().any(|x| x.0 == at) {
                all.push((at.clone(), k));
            }
            let mut text = format!("2024-01-01 close Assets:A{}\n", k);
            if k < levels {
                let to = match styles[k] {
                    0 => String::new(),
                    1 => {
                        dir.push(format!("s{}", k));
                        format!("s{}/", k)
                    }
                    _ if dir.is_empty() => {
                        dir.push(format!("x{}", k));
                        format!("./x{}/", k)
                    }
                    _ => {
                        dir.pop();
                        dir.push(format!("x{}", k));
                        format!("../x{}/", k)
                    }
                };
                text += &format!("include \"{}f{}\"\n", to, k + 1);
            }
            if k == levels || i >> k & 1 == 1 {
                text += "include \"leaf\"\n";
            }
            tr.file(&format!("{}f{}", at, k), &format!("{}2024-01-01 close Assets:B{}\n", text, k));
        }
        for (at, k) in all {
            tr.file(&format!("{}leaf", at), &format!("2024-01-01 close Assets:L{}\n", k));
        }
        agree_tree(&tr, "f0", ctx, false)
    }));
    // many faults
    let ns: Vec<usize> = (1..=t.pick(48usize, 140)).chain([65, 101, 130, 257]).collect();
    v.push(family("many faults", "1..=48 and up to 257 includes, all faulty in the same of 7 ways, by names of their own or one", ns.len() as u64 * 14, move |i, ctx| {
        let d = digits(i, &[7, 2, ns.len() as u64]);
        let n = ns[d[2]];
        let mut tr = Tree::new(&world());
        let mut root = String::new();
        for k in 0..n {
            let name = format!("f{}", if d[1] == 0 { k } else { 0 });
            root += &match d[0] {
                5 => format!("include \"[{}\"\n", name),
                6 => format!("pushtag #t{}\ninclude \"{}\"\npoptag #t{}\n", k, name, k),
                _ => format!("include \"{}\"\n", name),
            };
            match d[0] {
                1 => tr.subdir(&name),
                2 => tr.bytes(&name, b"\xff"),
                3 => tr.link(&name, "nowhere"),
                4 => tr.file(&name, &format!("{}2024-01-01 open\n", close(1))),
                6 => tr.file(&name, "include \"root\"\n"),
                _ => &mut tr,
            };
        }
        tr.file("root", &root);
        agree_tree(&tr, "root", ctx, false)
    }));
    // chains and fans of many files
    let ns: Vec<usize> = sizes(t, 40).into_iter().filter(|n| *n > 0 && *n < 600).collect();
    v.push(family("chains", "chains and fans of 1..=40, and up to 513 files in one directory or nested directories", ns.len() as u64 * 4, move |i, ctx| {
        let n = if i % 4 == 1 { ns[(i / 4) as usize].min(200) } else { ns[(i / 4) as usize] };
        let mut tr = Tree::new(&world());
        match i % 4 {
            0 => {
                for k in 0..n {
                    tr.file(&format!("f{}", k), &format!("2024-01-01 close Assets:A{}\n{}2024-01-01 close Assets:B{}\n", k, if k + 1 < n { format!("include \"f{}\"\n", k + 1) } else { String::new() }, k));
                }
            }
            1 => {
                let mut p = String::new();
                for k in 0..n {
                    tr.file(&format!("{}f0", p), &format!("2024-01-01 close Assets:A{}\n{}", k, if k + 1 < n { "include \"s/f0\"\n" } else { "" }));
                    p += "s/";
                }
            }
            2 => {
                let mut root = String::new();
                for k in (1..n + 1).rev() {
                    root += &format!("include \"f{}\"\n", k);
                    tr.file(&format!("f{}", k), &format!("2024-01-01 close Assets:A{}\ninclude \"f{}\"\n", k, (k * 7) % n + 1));
                }
                tr.file("f0", &root);
            }
            _ => {
                tr.file("f0", "include \"f[1-9]*\"\n2024-01-01 close Assets:Z\n");
                for k in 1..n + 1 {
                    tr.file(&format!("f{}", k), &format!("2024-01-01 close Assets:A{}\n", k));
                }
            }
        }
        agree_tree(&tr, "f0", ctx, false)
    }));
    v
}
