//! Reference model of includes: a model of a small file tree, path resolution and globbing on it, the
//! reading order of sources and the processing order of their declarations. The same tree is also written
//! to a scratch directory, where the library reads it.

use crate::{canon::*, engine::*, refm::*};
use beancount_parser_lima::BeancountSources;
use std::collections::{BTreeMap, VecDeque};
use std::path::PathBuf;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(Vec<u8>),
    Dir,
    Link(String),
}

/// absolute path -> node; `dir` itself and everything above it are directories
#[derive(Clone, Debug)]
pub struct Tree {
    pub dir: String,
    pub nodes: BTreeMap<String, Node>,
    /// the directory is the current one and has no name: no pattern means it
    pub bare: bool,
}

/// a directory of this worker's own, empty
pub fn world() -> String {
    let base = std::env::var("MC_SCRATCH").expect("MC_SCRATCH");
    let id = format!("{:?}", std::thread::current().id());
    let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
    // two levels of its own, so that a pattern which climbs out of the tree meets no other worker's files
    let d = PathBuf::from(base).join(format!("w{}", id)).join("t");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d.canonicalize().expect("scratch directory").to_string_lossy().to_string()
}

impl Tree {
    pub fn new(dir: &str) -> Tree {
        Tree { dir: dir.to_string(), nodes: BTreeMap::new(), bare: false }
    }
    fn parents(&mut self, rel: &str) {
        let mut p = String::new();
        let parts: Vec<&str> = rel.split('/').collect();
        for x in &parts[..parts.len() - 1] {
            p = format!("{}/{}", p, x);
            self.nodes.entry(format!("{}{}", self.dir, p)).or_insert(Node::Dir);
        }
    }
    /// `%W` in content stands for the tree's directory
    pub fn file(&mut self, rel: &str, content: &str) -> &mut Tree {
        self.parents(rel);
        self.nodes.insert(format!("{}/{}", self.dir, rel), Node::File(content.replace("%W", &self.dir).into_bytes()));
        self
    }
    pub fn bytes(&mut self, rel: &str, content: &[u8]) -> &mut Tree {
        self.parents(rel);
        self.nodes.insert(format!("{}/{}", self.dir, rel), Node::File(content.to_vec()));
        self
    }
    pub fn subdir(&mut self, rel: &str) -> &mut Tree {
        self.parents(rel);
        self.nodes.insert(format!("{}/{}", self.dir, rel), Node::Dir);
        self
    }
    pub fn link(&mut self, rel: &str, target: &str) -> &mut Tree {
        self.parents(rel);
        self.nodes.insert(format!("{}/{}", self.dir, rel), Node::Link(target.replace("%W", &self.dir)));
        self
    }

    pub fn write(&self) {
        for (p, n) in &self.nodes {
            match n {
                Node::Dir => std::fs::create_dir_all(p).unwrap(),
                Node::File(c) => std::fs::write(p, c).unwrap(),
                Node::Link(t) => std::os::unix::fs::symlink(t, p).unwrap(),
            }
        }
    }

    /// canonical path of what a path leads to, if it exists
    pub fn resolve(&self, path: &str) -> Option<String> {
        self.resolve_(path, 0)
    }
    fn resolve_(&self, path: &str, depth: u32) -> Option<String> {
        if depth > 16 {
            return None;
        }
        let mut cur = String::new(); // canonical so far, "" for the root
        let parts: Vec<&str> = path.split('/').filter(|x| !x.is_empty()).collect();
        for (i, x) in parts.iter().enumerate() {
            if !self.is_dir(&cur) {
                return None;
            }
            match *x {
                "." => (),
                ".." => cur.truncate(cur.rfind('/').unwrap_or(0)),
                x => {
                    let next = format!("{}/{}", cur, x);
                    if self.dir == next || self.dir.starts_with(&format!("{}/", next)) {
                        cur = next;
                        continue;
                    }
                    match self.nodes.get(&next) {
                        None => return None,
                        Some(Node::Link(t)) => {
                            let rest = parts[i + 1..].join("/");
                            let base = if t.starts_with('/') { t.clone() } else { format!("{}/{}", cur, t) };
                            let mut next = base;
                            if !rest.is_empty() || path.ends_with('/') {
                                next = format!("{}/{}", next, rest);
                            }
                            return self.resolve_(&next, depth + 1);
                        }
                        Some(_) => cur = next,
                    }
                }
            }
        }
        // a trailing slash demands a directory
        if path.ends_with('/') && !self.is_dir(&cur) {
            return None;
        }
        Some(cur)
    }
    fn is_dir(&self, canonical: &str) -> bool {
        canonical.is_empty() || self.dir == canonical || self.dir.starts_with(&format!("{}/", canonical)) || self.nodes.get(canonical) == Some(&Node::Dir)
    }
    pub fn content(&self, canonical: &str) -> Option<&[u8]> {
        match self.nodes.get(canonical) {
            Some(Node::File(c)) => Some(c),
            _ => None,
        }
    }
    /// names in a directory, sorted
    fn names(&self, canonical: &str) -> Vec<String> {
        let pre = format!("{}/", canonical);
        let mut v: Vec<String> = self.nodes.keys().filter_map(|k| k.strip_prefix(&pre)).filter(|n| !n.contains('/')).map(|n| n.to_string()).collect();
        v.sort();
        v
    }

    /// The paths an include matches, in name order; Err for a malformed pattern.
    pub fn matches(&self, including: &str, text: &str) -> Result<Vec<String>, ()> {
        // directory of the including file, taken literally
        let here = &including[..including.rfind('/').unwrap()];
        let (base, pattern) = if let Some(rest) = text.strip_prefix('/') {
            match text.strip_prefix(&format!("{}/", self.dir)) {
                Some(rest) => (self.dir.clone(), rest.to_string()),
                None => (String::new(), rest.to_string()),
            }
        } else {
            (here.to_string(), text.to_string())
        };
        for seg in pattern.split('/') {
            if !well_formed(seg) {
                return Err(());
            }
        }
        let mut cur = vec![base];
        let segs: Vec<&str> = pattern.split('/').filter(|s| !s.is_empty() && *s != ".").collect();
        for seg in &segs {
            let mut next = vec![];
            for c in &cur {
                if *seg == "**" {
                    self.below(c, &mut next);
                    continue;
                }
                let Some(canon) = self.resolve(c) else { continue };
                if !self.is_dir(&canon) {
                    continue;
                }
                if !seg.contains(['*', '?', '[']) {
                    let p = format!("{}/{}", c, seg);
                    if self.resolve(&p).is_some() {
                        next.push(p);
                    }
                } else {
                    for n in self.names(&canon) {
                        if glob_match(seg, &n) {
                            next.push(format!("{}/{}", c, n));
                        }
                    }
                }
            }
            cur = next;
        }
        if self.bare && !text.starts_with('/') && here == self.dir && (text.is_empty() || text.starts_with("**")) {
            cur.retain(|c| *c != self.dir);
        }
        Ok(cur)
    }
    fn below(&self, path: &str, out: &mut Vec<String>) {
        let Some(canon) = self.resolve(path) else { return };
        if !self.is_dir(&canon) {
            return;
        }
        out.push(path.to_string());
        for n in self.names(&canon) {
            // recursion does not follow links
            if !n.starts_with('.') && self.nodes.get(&format!("{}/{}", canon, n)) == Some(&Node::Dir) {
                self.below(&format!("{}/{}", path, n), out);
            }
        }
    }
}

fn well_formed(seg: &str) -> bool {
    if seg.contains("**") && seg != "**" {
        return false;
    }
    let ch: Vec<char> = seg.chars().collect();
    let mut i = 0;
    while i < ch.len() {
        if ch[i] == '[' {
            match class_end(&ch, i) {
                Some(e) => i = e,
                None => return false,
            }
        }
        i += 1;
    }
    true
}

/// index of the closing bracket of the class that starts at i
fn class_end(ch: &[char], i: usize) -> Option<usize> {
    let mut j = i + 1;
    if ch.get(j) == Some(&'!') {
        j += 1;
    }
    j += 1; // at least one member
    while j < ch.len() {
        if ch[j] == ']' {
            return Some(j);
        }
        j += 1;
    }
    None
}

fn glob_match(pat: &str, name: &str) -> bool {
    let p: Vec<char> = pat.chars().collect();
    let n: Vec<char> = name.chars().collect();
    if name.starts_with('.') && p.first() != Some(&'.') {
        return false;
    }
    fn go(p: &[char], n: &[char]) -> bool {
        match p.first() {
            None => n.is_empty(),
            Some('*') => (0..=n.len()).any(|k| go(&p[1..], &n[k..])),
            Some('?') => !n.is_empty() && go(&p[1..], &n[1..]),
            Some('[') => {
                let e = class_end(p, 0).unwrap();
                let neg = p[1] == '!';
                let m = &p[if neg { 2 } else { 1 }..e];
                let Some(c) = n.first() else { return false };
                let mut found = false;
                let mut k = 0;
                while k < m.len() {
                    if k + 2 < m.len() && m[k + 1] == '-' {
                        found |= m[k] <= *c && *c <= m[k + 2];
                        k += 3;
                    } else {
                        found |= m[k] == *c;
                        k += 1;
                    }
                }
                found != neg && go(&p[e + 1..], &n[1..])
            }
            Some(c) => n.first() == Some(c) && go(&p[1..], &n[1..]),
        }
    }
    go(&p, &n)
}

/// one source as read
#[derive(Clone, Debug)]
pub struct Src {
    pub path: String,
    pub canonical: String,
    pub content: String,
    pub parsed: Parsed,
}

/// a mistake, and the start of the declaration in which an error about it must start
#[derive(Clone, Debug)]
pub struct Fault {
    pub src: usize,
    pub start: usize,
    pub what: String,
    /// faults of the same group need one error between them
    pub group: String,
    pub required: bool,
    /// for mistakes found in processing: what the error must mention, point at and relate to
    pub want: Option<Want>,
}

#[derive(Clone, Debug)]
pub struct Want {
    pub words: &'static str,
    pub span: Sp,
    pub related: Option<Sp>,
}

#[derive(Clone, Debug, Default)]
pub struct ExpectedTree {
    pub exp: Expected,
    pub sources: Vec<Src>,
    pub faults: Vec<Fault>,
}

/// what parsing the tree from this root must give
pub fn expect_tree(tree: &Tree, root: &str) -> Option<ExpectedTree> {
    let root_path = format!("{}/{}", tree.dir, root);
    let canonical = tree.resolve(&root_path)?;
    let content = String::from_utf8(tree.content(&canonical)?.to_vec()).ok()?;
    Some(expect_from(Some(tree), Some((root_path, canonical)), content))
}

/// an inline source that includes files of the tree, by paths relative to its directory
pub fn expect_inline_in(tree: &Tree, text: &str) -> ExpectedTree {
    expect_from(Some(tree), Some((format!("{}/", tree.dir), String::new())), text.to_string())
}

/// an inline source, without includes
pub fn expect_inline(text: &str) -> ExpectedTree {
    expect_from(None, None, text.to_string())
}

fn expect_from(tree: Option<&Tree>, root: Option<(String, String)>, content: String) -> ExpectedTree {
    let (root_path, root_canonical) = root.unwrap_or_default();
    let mut st = PState::default();
    let mut sources: Vec<Src> = vec![];
    let mut by_canonical: BTreeMap<String, usize> = BTreeMap::new();
    // reading order: breadth first; the parser state runs through the sources in this order
    let mut queue: VecDeque<(usize, String)> = VecDeque::new(); // source, include text
    let mut read_errors: Vec<String> = vec![];
    let mut next_id = 0;
    let add = |id: usize, path: String, canonical: String, content: String, st: &mut PState, queue: &mut VecDeque<(usize, String)>| -> Src {
        let dir = (!path.is_empty()).then(|| path[..path.rfind('/').unwrap()].to_string());
        let parsed = parse_source(&content, id, dir.as_deref(), st);
        for (_, _, d) in &parsed.blocks {
            if let Some(Decl::Include(t, _)) = d {
                queue.push_back((id, t.clone()));
            }
        }
        Src { path, canonical, content, parsed }
    };
    // includes are found before anything is parsed, so sources are numbered first: one pass suffices,
    // since parsing in order of number is also the order of reading
    sources.push(add(0, root_path.clone(), root_canonical.clone(), content, &mut st, &mut queue));
    by_canonical.insert(root_canonical.clone(), 0);
    let mut numbers: Vec<usize> = vec![0]; // index in sources -> source id
    while let Some((s, text)) = queue.pop_front() {
        let Some(tree) = tree else { continue };
        let si = numbers.iter().position(|n| *n == s).unwrap();
        let Ok(paths) = tree.matches(&sources[si].path, &text) else { continue };
        for p in paths {
            let Some(c) = tree.resolve(&p) else { continue };
            if by_canonical.contains_key(&c) || read_errors.contains(&c) {
                continue;
            }
            next_id += 1;
            match tree.content(&c).and_then(|b| String::from_utf8(b.to_vec()).ok()) {
                Some(content) => {
                    by_canonical.insert(c.clone(), sources.len());
                    let src = add(next_id, p, c, content, &mut st, &mut queue);
                    sources.push(src);
                    numbers.push(next_id);
                }
                None => read_errors.push(c),
            }
        }
    }
    // processing order: in place
    let mut w = Walk { tree, sources: &sources, numbers: &numbers, by_canonical: &by_canonical, proc_: Proc::default(), included: BTreeMap::new(), given: BTreeMap::new(), faults: vec![], unknown: false };
    w.included.insert(root_canonical, None);
    w.file(0, 0);
    let Walk { mut proc_, mut faults, mut unknown, .. } = w;
    for (i, s) in sources.iter().enumerate() {
        unknown |= s.parsed.unknown;
        let shadowed = s.parsed.shadowed();
        for (b, p) in &s.parsed.problems {
            let (start, _, _) = s.parsed.blocks[*b];
            faults.push(Fault { src: numbers[i], start, what: p.clone(), group: format!("{}:{}", i, start), required: !shadowed[*b], want: None });
        }
    }
    let at = |s: &Sp| {
        let src = &sources[numbers.iter().position(|n| *n == s.0).unwrap()];
        match &src.parsed.blocks.iter().find(|b| b.0 == s.1).unwrap().2 {
            Some(Decl::Pushtag(_, sp)) | Some(Decl::Pushmeta { kspan: sp, .. }) => *sp,
            _ => unreachable!(),
        }
    };
    for (i, (t, s)) in proc_.tags.iter().enumerate() {
        let want = Some(Want { words: "pushtag", span: at(s), related: None });
        faults.push(Fault { src: s.0, start: s.1, what: format!("pushtag {} without poptag", t), group: format!("pushtag {} {}", t, i), required: true, want });
    }
    for (k, s, _) in &proc_.meta {
        let want = Some(Want { words: "pushmeta", span: at(s), related: None });
        faults.push(Fault { src: s.0, start: s.1, what: format!("pushmeta {} without popmeta", k), group: format!("pushmeta {}", k), required: true, want });
    }
    proc_.finish();
    // a file that is never reached cannot exist; problems of all files count
    let problems: Vec<String> = faults.iter().map(|f| f.what.clone()).collect();
    let exp = Expected {
        unknown,
        ok: problems.is_empty(),
        options: canon_options(&proc_, &st),
        problems,
        directives: proc_.directives,
        plugins: proc_.plugins,
        warnings: sources.iter().flat_map(|s| s.parsed.warnings.clone()).collect(),
        blocks: sources[0].parsed.blocks.clone(),
    };
    ExpectedTree { exp, sources, faults }
}

type Context = (Vec<String>, Vec<(String, Vec<(String, Sp)>)>);

struct Walk<'a> {
    tree: Option<&'a Tree>,
    sources: &'a [Src],
    numbers: &'a [usize],
    by_canonical: &'a BTreeMap<String, usize>,
    proc_: Proc,
    /// canonical path -> the context of its include; None for the root
    included: BTreeMap<String, Option<(Context, Sp)>>,
    /// by the fault that giving it again would be: where an option was given
    given: BTreeMap<String, Sp>,
    faults: Vec<Fault>,
    unknown: bool,
}

impl Walk<'_> {
    /// pushed tags as a multiset, and per key the stack of values
    fn context(&self) -> Context {
        let mut tags: Vec<String> = self.proc_.tags.iter().map(|t| t.0.clone()).collect();
        tags.sort();
        let mut meta: BTreeMap<String, Vec<(String, Sp)>> = BTreeMap::new();
        for (k, s, f) in &self.proc_.meta {
            let v: Vec<String> = f.iter().map(|(a, b, _)| format!("{}={}", a, b)).collect();
            meta.entry(k.clone()).or_default().push((v.join(";"), *s));
        }
        (tags, meta.into_iter().collect())
    }

    fn fault(&mut self, src: usize, start: usize, what: String, words: &'static str, span: Sp, related: Option<Sp>) {
        self.faults.push(Fault { src, start, group: format!("{}:{}:{}", src, start, what), what, required: true, want: Some(Want { words, span, related }) });
    }

    fn file(&mut self, si: usize, depth: u32) {
        assert!(depth < 4096);
        let s = &self.sources[si];
        let id = self.numbers[si];
        let dir = (!s.path.is_empty()).then(|| s.path[..s.path.rfind('/').unwrap()].to_string());
        for (start, _, d) in &s.parsed.blocks {
            let Some(d) = d else { continue };
            if let Decl::Include(text, sp) = d {
                let Some(tree) = self.tree else {
                    self.fault(id, *start, "include in inline source".into(), "", *sp, None);
                    continue;
                };
                let Ok(paths) = tree.matches(&s.path, text) else {
                    self.fault(id, *start, "malformed pattern".into(), "glob", *sp, None);
                    continue;
                };
                if paths.is_empty() {
                    // a link to nowhere can be found but not read
                    self.fault(id, *start, "no such file".into(), "file", *sp, None);
                }
                // the include claims all it matches
                let here = self.context();
                let mut todo = vec![];
                for p in paths {
                    let Some(c) = tree.resolve(&p) else {
                        self.fault(id, *start, "cannot be read".into(), "read", *sp, None);
                        continue;
                    };
                    let Some(ti) = self.by_canonical.get(&c) else {
                        self.fault(id, *start, "cannot be read".into(), "read", *sp, None);
                        continue;
                    };
                    match self.included.get(&c) {
                        None => {
                            self.included.insert(c, Some((here.clone(), *sp)));
                            todo.push(*ti);
                        }
                        Some(None) => self.fault(id, *start, "includes the root".into(), "include", *sp, None),
                        Some(Some((first, before))) => {
                            let before = *before;
                            let same_tags = first.0 == here.0;
                            let vals = |m: &Vec<(String, Vec<(String, Sp)>)>| m.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| x.0.clone()).collect::<Vec<_>>())).collect::<Vec<_>>();
                            if same_tags && first.1 == here.1 {
                                // ignored
                            } else if same_tags && vals(&first.1) == vals(&here.1) {
                                // equal values pushed at different places
                                self.unknown = true;
                            } else {
                                self.fault(id, *start, "included again in a different context".into(), "duplicate include", *sp, Some(before));
                            }
                        }
                    }
                }
                for ti in todo {
                    self.file(ti, depth + 1);
                }
                continue;
            }
            let before = self.proc_.problems.len();
            self.proc_.step(d, dir.as_deref());
            let problems = self.proc_.problems.split_off(before);
            if let Decl::Option { name, value, nspan, vspan } = d {
                match option_value(name, value, dir.as_deref()) {
                    Some(OptV::Single(_)) => {
                        self.given.entry(format!("duplicate option {}", name)).or_insert(*nspan);
                    }
                    Some(OptV::Multi(k, _)) => {
                        self.given.entry(format!("duplicate option value {} {}", name, k)).or_insert(*vspan);
                    }
                    _ => (),
                }
            }
            for p in problems {
                let first = self.given.get(&p).copied();
                match d {
                    Decl::Poptag(_, s) => self.fault(id, *start, p, "poptag", *s, None),
                    Decl::Popmeta(_, s) => self.fault(id, *start, p, "popmeta", *s, None),
                    Decl::Option { vspan, .. } if p.starts_with("duplicate option value ") => self.fault(id, *start, p, "duplicate", *vspan, first),
                    Decl::Option { nspan, .. } => self.fault(id, *start, p, "duplicate", *nspan, first),
                    _ => unreachable!(),
                }
            }
            // pushes are remembered by the start of their declaration
            match d {
                Decl::Pushtag(..) => self.proc_.tags.last_mut().unwrap().1 = (id, *start, *start),
                Decl::Pushmeta { .. } => {
                    let m = self.proc_.meta.last_mut().unwrap();
                    m.1 = (id, *start, *start);
                }
                _ => (),
            }
        }
    }
}

/// errors start within faulty declarations only, and every fault has one
pub fn check_places(t: &ExpectedTree, out: &Outcome) -> R {
    if t.exp.unknown || t.exp.ok {
        return Ok(());
    }
    let ids: Vec<usize> = {
        // source ids in order of reading; those that could not be read have none here
        t.sources.iter().map(|s| s.parsed.id).collect()
    };
    for m in &out.errors {
        for sp in std::iter::once(&m.span).chain(m.contexts.iter().chain(&m.related).map(|(_, s)| s)) {
            if let Some(i) = ids.iter().position(|i| *i == sp.0) {
                if t.sources[i].content.get(sp.1..sp.2).is_none() {
                    return Err(format!("error {:?} {:?} mentions {:?}, which is not part of its source", m.message, m.reason, sp));
                }
            }
        }
    }
    let extent = |src: usize, start: usize| -> (usize, usize) {
        let s = &t.sources[ids.iter().position(|i| *i == src).unwrap()];
        let next = s.parsed.blocks.iter().map(|b| b.0).filter(|b| *b > start).min().unwrap_or(s.content.len() + 1);
        (start, next)
    };
    let within = |f: &Fault, m: &Msg| {
        let (a, b) = extent(f.src, f.start);
        m.span.0 == f.src && m.span.1 >= a && m.span.1 < b
    };
    let errs = || out.errors.iter().map(|m| (&m.message, &m.reason, m.span)).collect::<Vec<_>>();
    for m in &out.errors {
        if !t.faults.iter().any(|f| within(f, m)) {
            return Err(format!("error {:?} {:?} at {:?} is in no faulty declaration (faults: {:?})", m.message, m.reason, m.span, t.faults.iter().map(|f| (f.src, f.start, &f.what)).collect::<Vec<_>>()));
        }
    }
    for f in t.faults.iter().filter(|f| f.required) {
        if !t.faults.iter().filter(|g| g.group == f.group).any(|g| out.errors.iter().any(|m| within(g, m))) {
            return Err(format!("no error starts within the declaration at {}:{} ({}): {:?}", f.src, f.start, f.what, errs()));
        }
        if let Some(w) = &f.want {
            // of the mistakes of a group, the error may be about any
            let fits = |g: &Fault, m: &Msg| {
                let v = g.want.as_ref().unwrap();
                m.span == v.span && (m.message.contains(v.words) || m.reason.contains(v.words)) && v.related.is_none_or(|r| m.related.iter().any(|x| x.1 == r))
            };
            if !t.faults.iter().filter(|g| g.group == f.group).any(|g| out.errors.iter().any(|m| fits(g, m))) {
                return Err(format!("no error about {} mentions {:?} at {:?} and relates to {:?}: {:?}", f.what, w.words, w.span, w.related, out.errors));
            }
        }
    }
    Ok(())
}

/// run the library on the tree, as written
pub fn parse_tree(tree: &Tree, root: &str) -> Result<Outcome, String> {
    let p = PathBuf::from(format!("{}/{}", tree.dir, root));
    let r = guarded(|| BeancountSources::try_from(p).map(|s| outcome(&s)))?;
    r.map_err(|e| format!("io error {}", e))
}

extern "C" {
    fn unshare(flags: i32) -> i32;
}

thread_local! {
    /// whether this thread has a current directory of its own (CLONE_FS)
    static OWN_CWD: bool = unsafe { unshare(0x200) } == 0;
}

/// in the tree's directory; None if this thread cannot change directory on its own
pub fn within<T>(tree: &Tree, f: impl FnOnce() -> T) -> Option<T> {
    if !OWN_CWD.with(|b| *b) {
        return None;
    }
    std::env::set_current_dir(&tree.dir).expect("scratch directory");
    let r = f();
    std::env::set_current_dir("/").expect("root directory");
    Some(r)
}

/// relative directories are relative to the tree's
fn absolute(tree: &Tree, mut out: Outcome) -> Outcome {
    for (n, v) in out.options.iter_mut() {
        if n == "documents" && !v.starts_with('/') {
            *v = format!("{}/{}", tree.dir, v);
            *v = std::path::Path::new(v.as_str()).components().collect::<std::path::PathBuf>().to_string_lossy().to_string();
        }
    }
    out.options.sort();
    out
}

pub fn describe(tree: &Tree) -> String {
    let mut s = String::new();
    for (p, n) in &tree.nodes {
        s += &format!("\n  {}: {}", p.strip_prefix(&tree.dir).unwrap_or(p), match n {
            Node::Dir => "directory".to_string(),
            Node::File(c) => format!("{:?}", String::from_utf8_lossy(c).replace(&tree.dir, "%W")),
            Node::Link(t) => format!("-> {}", t),
        });
    }
    s
}

/// verdict, values and places agree with the reference; `spans` also compares spans
pub fn agree_tree(tree: &Tree, root: &str, ctx: &mut Ctx, spans: bool) -> R {
    tree.write();
    let fail = |m: String| format!("{}{}", m, describe(tree));
    let Some(t) = expect_tree(tree, root) else {
        ctx.trace(1);
        ctx.outcome("root cannot be read");
        return match parse_tree(tree, root) {
            Err(e) if e.starts_with("io error") => Ok(()),
            Err(e) => Err(fail(e)),
            Ok(_) => Err(fail("a root that cannot be read gives a result".into())),
        };
    };
    let out = parse_tree(tree, root).map_err(fail)?;
    note_tree(&t, ctx);
    ctx.sample(|| format!("{} -> {:?}", describe(tree), t.exp.problems));
    compare("", &t.exp, &out).map_err(|e| fail(e.trim_end_matches(": \"\"").to_string()))?;
    check_places(&t, &out).map_err(fail)?;
    if spans && t.exp.ok && !t.exp.unknown {
        compare_spans_tree(&t, &out).map_err(fail)?;
    }
    // the same by a relative path, and as an inline source
    let rel = within(tree, || guarded(|| BeancountSources::try_from(std::path::Path::new(root)).map(|s| outcome(&s))));
    let Some(rel) = rel else {
        ctx.outcome("relative paths not explored: no current directory of its own");
        return Ok(());
    };
    let fail = |m: String| format!("by a relative path: {}{}", m.trim_end_matches(": \"\""), describe(tree));
    let rel = absolute(tree, rel.map_err(fail)?.map_err(|e| fail(format!("io error {}", e)))?);
    let bare = Tree { bare: !root.contains('/'), ..tree.clone() };
    let t = expect_tree(&bare, root).unwrap();
    compare("", &t.exp, &rel).map_err(fail)?;
    check_places(&t, &rel).map_err(fail)?;
    if root.contains('/') {
        return Ok(());
    }
    let fail = |m: String| format!("inline: {}{}", m.trim_end_matches(": \"\""), describe(tree));
    let text = &t.sources[0].content;
    let inl = within(tree, || guarded(|| outcome(&BeancountSources::from(text.clone())))).unwrap().map_err(fail)?;
    let inl = absolute(tree, inl);
    let t = expect_inline_in(&bare, text);
    compare("", &t.exp, &inl).map_err(fail)?;
    check_places(&t, &inl).map_err(fail)
}

pub fn note_tree(t: &ExpectedTree, ctx: &mut Ctx) {
    ctx.trace(t.sources.iter().map(|s| s.parsed.blocks.len() as u64 + 1).sum());
    ctx.state(&(&t.exp.directives, &t.exp.options, &t.exp.problems));
    ctx.verdict(t.exp.ok);
    if t.exp.unknown {
        ctx.outcome("unspecified");
    } else if t.exp.ok {
        ctx.outcome(&format!("{} sources, {} directives", t.sources.len(), t.exp.directives.len()));
    } else {
        let mut p: Vec<&str> = t.exp.problems.iter().map(|s| s.as_str()).collect();
        p.sort();
        p.dedup();
        ctx.outcome(&format!("refused: {}", p.join(", ")));
    }
}

pub fn compare_spans_tree(t: &ExpectedTree, out: &Outcome) -> R {
    for (i, (a, b)) in t.exp.directives.iter().zip(&out.directives).enumerate() {
        if let Some(d) = a.diff_spans(b) {
            return Err(format!("directive {}: {}", i, d));
        }
        let s = t.sources.iter().find(|s| s.parsed.id == a.span.0).unwrap();
        let next = s.parsed.blocks.iter().map(|x| x.0).filter(|x| *x > a.span.1).min().unwrap_or(s.content.len());
        if b.span.0 != a.span.0 || b.span.1 != a.span.1 || b.span.2 < a.span.2 || b.span.2 > next {
            return Err(format!("directive {}: extent {:?}, expected {:?} (at most {})", i, b.span, a.span, next));
        }
    }
    Ok(())
}

/// inline text: verdict, values and the places of errors
pub fn agree_places(text: &str, ctx: &mut Ctx) -> R {
    let t = expect_inline(text);
    let out = guarded(|| parse_text(text)).map_err(|e| format!("{}: {:?}", e, text))?;
    crate::common::note(ctx, text, &t.exp);
    compare(text, &t.exp, &out)?;
    check_places(&t, &out).map_err(|e| format!("{}: {:?}", e, text))
}
