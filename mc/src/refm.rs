//! Reference model of the Beancount text format as lima documents it: a deliberately plain lexer
//! (longest match, hand written), a line/block structure, a recursive descent parser for one block, and
//! the processing of pragmas and options. It is written from the grammar, shares no code with the
//! library, and produces the same canonical form as `canon` does from the library's results.

use crate::canon::*;
use rust_decimal::Decimal;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- characters

/// the general category classes that matter, for the characters the explorations use
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Cc {
    Lu,
    Ll,
    Lt,
    Lm,
    Lo,
    Nd,
    Nl,
    No,
    Other,
}

pub fn cc(c: char) -> Cc {
    match c {
        'A'..='Z' => Cc::Lu,
        'a'..='z' => Cc::Ll,
        '0'..='9' => Cc::Nd,
        c if c.is_ascii() => Cc::Other,
        'É' | 'Ä' | 'Ж' | 'Ω' | '𝔸' => Cc::Lu,
        'é' | 'ä' | 'ß' | 'ж' => Cc::Ll,
        'ǅ' => Cc::Lt,
        'ʰ' => Cc::Lm,
        '日' | '本' | 'ª' | 'º' | 'あ' | 'ア' => Cc::Lo,
        '٢' | '१' | '५' => Cc::Nd,
        'Ⅷ' => Cc::Nl,
        '²' | '½' => Cc::No,
        '€' | '😱' | '\u{a0}' | '“' | '–' | '\u{301}' | '\u{2028}' | '\u{85}' | '\u{3000}' | '\u{feff}' | '\u{80}' | '\u{ad}' | '\u{200b}' | '\u{200e}' | '\u{2029}' | '\u{fffd}' | '😀' => Cc::Other,
        c => panic!("reference model: no category for {:?}", c),
    }
}

fn is_l(c: char) -> bool {
    matches!(cc(c), Cc::Lu | Cc::Ll | Cc::Lt | Cc::Lm | Cc::Lo)
}
fn is_n(c: char) -> bool {
    matches!(cc(c), Cc::Nd | Cc::Nl | Cc::No)
}

// ---------------------------------------------------------------- tokens

pub const KEYWORDS: [&str; 20] = [
    "txn", "balance", "open", "close", "commodity", "pad", "event", "query", "custom", "price", "note", "document",
    "pushtag", "poptag", "pushmeta", "popmeta", "option", "options", "plugin", "include",
];

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Sym(&'static str),
    Flag(char), // ! & ? % or 'X (stored as the letter)
    Kw(&'static str),
    Bool(bool),
    Null,
    Cur,
    Date(String),
    Time,
    Acct,
    Str(String),
    Num(Decimal),
    Tag,
    Link,
    Key,
    /// end of line; true when the following line is indented
    Eol(bool),
    EolComment,
    Bad,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub s: usize,
    pub e: usize,
}

fn m_while(s: &str, f: impl Fn(char) -> bool) -> usize {
    s.char_indices().find(|(_, c)| !f(*c)).map(|(i, _)| i).unwrap_or(s.len())
}

fn digits_n(s: &str, n: usize) -> bool {
    s.len() >= n && s.as_bytes()[..n].iter().all(|b| b.is_ascii_digit())
}

fn m_currency(s: &str) -> Option<usize> {
    let body = |c: char| c.is_ascii_uppercase() || c.is_ascii_digit() || "'._-".contains(c);
    let b = s.as_bytes();
    if b.is_empty() {
        return None;
    }
    if b[0].is_ascii_uppercase() {
        return Some(1 + m_while(&s[1..], body));
    }
    if b[0] == b'/' {
        let n = m_while(&s[1..], |c| c.is_ascii_digit() || "'._-".contains(c));
        let rest = &s[1 + n..];
        if rest.starts_with(|c: char| c.is_ascii_uppercase()) {
            return Some(1 + n + m_while(rest, body));
        }
    }
    None
}

fn m_date(s: &str) -> Option<usize> {
    if s.len() >= 10 && s.is_char_boundary(10) {
        let b = s.as_bytes();
        if digits_n(s, 4) && b"-/".contains(&b[4]) && digits_n(&s[5..], 2) && b"-/".contains(&b[7]) && digits_n(&s[8..], 2) {
            return Some(10);
        }
    }
    None
}

fn m_time(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let h = m_while(s, |c| c.is_ascii_digit());
    let mut best = None;
    for hh in 1..=h.min(2) {
        if b.get(hh) == Some(&b':') && hh + 3 <= s.len() && b[hh + 1].is_ascii_digit() && b[hh + 2].is_ascii_digit() {
            best = Some(hh + 3);
            if b.get(hh + 3) == Some(&b':') && hh + 6 <= s.len() && b[hh + 4].is_ascii_digit() && b[hh + 5].is_ascii_digit() {
                best = Some(hh + 6);
            }
        }
    }
    best
}

fn m_account(s: &str) -> Option<usize> {
    let c0 = s.chars().next()?;
    if !matches!(cc(c0), Cc::Lu | Cc::Lo) {
        return None;
    }
    let name = |c: char| is_l(c) || is_n(c) || c == '-';
    let mut n = c0.len_utf8() + m_while(&s[c0.len_utf8()..], name);
    let mut best = None;
    loop {
        let rest = &s[n..];
        if !rest.starts_with(':') {
            break;
        }
        match rest[1..].chars().next() {
            Some(c) if matches!(cc(c), Cc::Lu | Cc::Lo) || is_n(c) => {
                n += 1 + c.len_utf8();
                n += m_while(&s[n..], name);
                best = Some(n);
            }
            _ => break,
        }
    }
    best
}

fn m_string(s: &str) -> Option<usize> {
    if !s.starts_with('"') {
        return None;
    }
    let mut it = s[1..].char_indices();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some(1 + i + 1),
            '\\' => match it.next() {
                Some((_, c)) if c != '\n' => (),
                _ => return None,
            },
            _ => (),
        }
    }
    None
}

fn m_number(s: &str) -> Option<usize> {
    let mut n = m_while(s, |c| c.is_ascii_digit());
    if n == 0 {
        return None;
    }
    while s[n..].starts_with(',') && digits_n(&s[n + 1..], 3) {
        n += 4;
    }
    if s[n..].starts_with('.') {
        let d = m_while(&s[n + 1..], |c| c.is_ascii_digit());
        if d > 0 {
            n += 1 + d;
        }
    }
    Some(n)
}

fn m_taglink(s: &str, prefix: char) -> Option<usize> {
    if !s.starts_with(prefix) {
        return None;
    }
    let n = m_while(&s[1..], |c| c.is_ascii_alphanumeric() || "-_/.".contains(c));
    (n > 0).then_some(1 + n)
}

fn m_key(s: &str) -> Option<usize> {
    if !s.starts_with(|c: char| c.is_ascii_lowercase()) {
        return None;
    }
    let n = m_while(&s[1..], |c| c.is_ascii_alphanumeric() || "-_".contains(c));
    (n > 0).then_some(1 + n)
}

fn m_newline(s: &str) -> Option<usize> {
    if s.starts_with("\r\n") {
        Some(2)
    } else if s.starts_with('\n') {
        Some(1)
    } else {
        None
    }
}

/// end of line: optional comment, newline, any number of whole lines that start with a flag character or
/// colon, then the indent of the next line
fn m_eol(s: &str) -> Option<(usize, bool)> {
    let mut n;
    if s.starts_with(';') {
        n = s.find('\n')? + 1;
    } else {
        n = m_newline(s)?;
    }
    while s[n..].starts_with(|c| "*!&#?%:".contains(c)) {
        match s[n..].find('\n') {
            Some(i) => n += i + 1,
            None => break,
        }
    }
    let w = m_while(&s[n..], |c| c == ' ' || c == '\t');
    Some((n + w, w > 0))
}

pub fn parse_dec(s: &str) -> Option<Decimal> {
    use std::str::FromStr;
    Decimal::from_str(s).ok()
}

/// what a literal number denotes: the digits without the separators; None if not representable
pub fn number_value(text: &str) -> Option<Decimal> {
    let plain: String = text.chars().filter(|c| *c != ',').collect();
    let scale = plain.find('.').map(|i| plain.len() - i - 1).unwrap_or(0);
    let digs: String = plain.chars().filter(|c| *c != '.').collect();
    let digs = digs.trim_start_matches('0');
    if scale <= 28 && digs.len() <= 28 {
        let m: i128 = if digs.is_empty() { 0 } else { digs.parse().ok()? };
        return Some(Decimal::from_i128_with_scale(m, scale as u32));
    }
    // beyond 28 digits the decimal library decides (rounding or overflow)
    parse_dec(&plain)
}

pub fn date_value(text: &str) -> Option<String> {
    let y: u32 = text[0..4].parse().ok()?;
    let m: u32 = text[5..7].parse().ok()?;
    let d: u32 = text[8..10].parse().ok()?;
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let days = match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if leap => 29,
        2 => 28,
        _ => return None,
    };
    (d >= 1 && d <= days).then(|| format!("{:04}-{:02}-{:02}", y, m, d))
}

/// the documented escapes; Err for a malformed one
pub fn unescape(s: &str) -> Option<String> {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next()? {
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            'b' => o.push('\u{8}'),
            'f' => o.push('\u{c}'),
            '\\' => o.push('\\'),
            '\'' => o.push('\''),
            '"' => o.push('"'),
            '/' => o.push('/'),
            'x' => {
                let h: String = [it.next()?, it.next()?].iter().collect();
                if !h.chars().all(|c| c.is_ascii_hexdigit()) {
                    return None;
                }
                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            'u' => {
                if it.peek() == Some(&'{') {
                    it.next();
                    let mut h = String::new();
                    loop {
                        match it.next()? {
                            '}' => break,
                            c => h.push(c),
                        }
                    }
                    if h.is_empty() || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                        return None;
                    }
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                } else {
                    let mut h = String::new();
                    for _ in 0..4 {
                        h.push(it.next()?);
                    }
                    if !h.chars().all(|c| c.is_ascii_hexdigit()) {
                        return None;
                    }
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
            }
            c @ '0'..='7' => {
                // octal: at most three digits, first at most 3 for three
                let mut h = String::from(c);
                let max = if c <= '3' { 3 } else { 2 };
                while h.len() < max {
                    match it.peek() {
                        Some(d @ '0'..='7') => {
                            h.push(*d);
                            it.next();
                        }
                        _ => break,
                    }
                }
                o.push(char::from_u32(u32::from_str_radix(&h, 8).ok()?)?);
            }
            _ => return None,
        }
    }
    Some(o)
}

const SYMS: [&str; 17] = [
    "@@", "{{", "}}", "|", "@", "{", "}", ",", "~", "+", "-", "/", "(", ")", "#", "*", ":",
];

/// all tokens, unlexable characters as Bad
pub fn lex(text: &str) -> Vec<Tok> {
    let mut v: Vec<Tok> = vec![];
    let mut i = 0;
    while i < text.len() {
        let s = &text[i..];
        let ws = m_while(s, |c| c == ' ' || c == '\t');
        if ws > 0 {
            i += ws;
            continue;
        }
        // longest match; a literal wins a tie over a pattern
        let mut best: (usize, T) = (0, T::Bad);
        let mut cand = |n: usize, t: &dyn Fn() -> T| {
            if n > best.0 {
                best = (n, t());
            }
        };
        for k in KEYWORDS {
            if s.starts_with(k) {
                cand(k.len(), &|| T::Kw(k));
            }
        }
        for (k, t) in [("TRUE", T::Bool(true)), ("FALSE", T::Bool(false)), ("NULL", T::Null)] {
            if s.starts_with(k) {
                cand(k.len(), &|| t.clone());
            }
        }
        for k in SYMS {
            if s.starts_with(k) {
                cand(k.len(), &|| T::Sym(k));
            }
        }
        for k in ["!", "&", "?", "%"] {
            if s.starts_with(k) {
                cand(1, &|| T::Flag(k.chars().next().unwrap()));
            }
        }
        if s.len() >= 2 && s.starts_with('\'') && s.as_bytes()[1].is_ascii_uppercase() {
            cand(2, &|| T::Flag(s.as_bytes()[1] as char));
        }
        if let Some(n) = m_currency(s) {
            cand(n, &|| T::Cur);
        }
        if let Some(n) = m_date(s) {
            cand(n, &|| date_value(&s[..n]).map(T::Date).unwrap_or(T::Bad));
        }
        if let Some(n) = m_time(s) {
            cand(n, &|| T::Time);
        }
        if let Some(n) = m_account(s) {
            cand(n, &|| T::Acct);
        }
        if let Some(n) = m_string(s) {
            cand(n, &|| unescape(&s[1..n - 1]).map(T::Str).unwrap_or(T::Bad));
        }
        if let Some(n) = m_number(s) {
            cand(n, &|| number_value(&s[..n]).map(T::Num).unwrap_or(T::Bad));
        }
        if let Some(n) = m_taglink(s, '#') {
            cand(n, &|| T::Tag);
        }
        if let Some(n) = m_taglink(s, '^') {
            cand(n, &|| T::Link);
        }
        if let Some(n) = m_key(s) {
            cand(n, &|| T::Key);
        }
        if let Some((n, indent)) = m_eol(s) {
            cand(n, &|| T::Eol(indent));
        }
        if s.starts_with(';') {
            let n = m_while(s, |c| c != '\r' && c != '\n');
            cand(n, &|| T::EolComment);
        }
        let (n, t) = best;
        let n = if n == 0 { s.chars().next().unwrap().len_utf8() } else { n };
        v.push(Tok { t, s: i, e: i + n });
        i += n;
    }
    // a keyword directly followed by a colon is a key
    for j in 0..v.len() {
        if matches!(v[j].t, T::Kw(_)) && matches!(v.get(j + 1).map(|t| &t.t), Some(T::Sym(":"))) {
            v[j].t = T::Key;
        }
    }
    v
}

#[derive(Clone, Debug)]
pub struct Line {
    pub indent: bool,
    pub toks: Vec<Tok>,
}

/// Logical lines: blank lines and comment lines vanish, as do indented lines that start with a colon.
/// Second result: an unlexable character was dropped with an ignored line.
pub fn lines(toks: Vec<Tok>) -> (Vec<Line>, bool) {
    let mut out: Vec<Line> = vec![];
    let mut cur: Vec<Tok> = vec![];
    let mut indent = false;
    let mut dropped_bad = false;
    let mut finish = |indent: bool, cur: &mut Vec<Tok>, out: &mut Vec<Line>| {
        let toks = std::mem::take(cur);
        if toks.is_empty() {
            return;
        }
        let first = out.is_empty();
        if matches!(toks[0].t, T::Sym(":")) && (indent || first) {
            dropped_bad |= toks.iter().any(|t| t.t == T::Bad);
            return;
        }
        out.push(Line { indent: indent && !first, toks });
    };
    for t in toks {
        match t.t {
            T::Eol(i) => {
                finish(indent, &mut cur, &mut out);
                indent = i;
            }
            T::EolComment => {
                finish(indent, &mut cur, &mut out);
                indent = false;
            }
            _ => cur.push(t),
        }
    }
    finish(indent, &mut cur, &mut out);
    (out, dropped_bad)
}

/// header line and its indented lines
#[derive(Clone, Debug)]
pub struct Block {
    pub lines: Vec<Line>,
}

pub fn blocks(lines: Vec<Line>) -> Vec<Block> {
    let mut v: Vec<Block> = vec![];
    for l in lines {
        if l.indent && !v.is_empty() {
            v.last_mut().unwrap().lines.push(l);
        } else {
            v.push(Block { lines: vec![l] });
        }
    }
    v
}

impl Block {
    pub fn start(&self) -> usize {
        self.lines[0].toks[0].s
    }
    pub fn end(&self) -> usize {
        self.lines.last().unwrap().toks.last().unwrap().e
    }
}

// ---------------------------------------------------------------- parser state

#[derive(Clone, Debug)]
pub struct Names {
    /// type -> name, in the fixed order of the five types
    pub by_type: Vec<String>,
}

pub const TYPES: [&str; 5] = ["Assets", "Liabilities", "Equity", "Income", "Expenses"];

impl Default for Names {
    fn default() -> Self {
        Names { by_type: TYPES.iter().map(|s| s.to_string()).collect() }
    }
}

impl Names {
    pub fn type_of(&self, name: &str) -> Option<usize> {
        self.by_type.iter().position(|n| n == name)
    }
    pub fn update(&mut self, ty: usize, name: &str) -> bool {
        match self.type_of(name) {
            None => {
                self.by_type[ty] = name.to_string();
                true
            }
            Some(t) => t == ty,
        }
    }
}

pub fn valid_account_type_name(s: &str) -> bool {
    let mut it = s.chars();
    it.next().is_some_and(|c| c.is_ascii_uppercase()) && it.all(valid_name_rest)
}
fn alnum(c: char) -> bool {
    is_l(c) || is_n(c)
}
fn valid_name_rest(c: char) -> bool {
    alnum(c) || c == '-'
}
pub fn valid_account_name(s: &str) -> bool {
    let mut it = s.chars();
    it.next()
        .is_some_and(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || (!c.is_ascii() && (is_l(c) || cc(c) == Cc::Nl)))
        && it.all(valid_name_rest)
}
pub fn valid_subaccount(s: &str) -> bool {
    s.split(':').all(valid_account_name)
}
pub fn valid_currency(s: &str) -> bool {
    let ch: Vec<char> = s.chars().collect();
    let fin = |c: char| c.is_ascii_uppercase() || c.is_ascii_digit();
    !ch.is_empty()
        && (ch[0].is_ascii_uppercase() || ch[0] == '/')
        && fin(ch[ch.len() - 1])
        && (ch.len() < 3 || ch[1..ch.len() - 1].iter().all(|c| fin(*c) || "'._-".contains(*c)))
        && ch.iter().any(|c| c.is_ascii_uppercase())
}
pub fn valid_tag_or_link(s: &str) -> bool {
    s.chars().all(|c| alnum(c) || "-_/.".contains(c))
}
pub fn valid_key(s: &str) -> bool {
    let mut it = s.chars();
    it.next().is_some_and(|c| c.is_ascii_lowercase()) && it.all(|c| alnum(c) || c == '-' || c == '_')
}

/// state carried through a parse: what earlier options have set
#[derive(Clone, Debug, Default)]
pub struct PState {
    pub names: Names,
    pub maxlines: Option<(usize, Sp)>,
}

// ---------------------------------------------------------------- expressions

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    V(Decimal),
    Bin(char, Box<E>, Box<E>),
    Neg(Box<E>),
    Par(Box<E>),
}

impl E {
    pub fn s(&self) -> String {
        match self {
            E::V(d) => dec(*d),
            E::Bin(o, a, b) => format!("({} {} {})", o, a.s(), b.s()),
            E::Neg(a) => format!("(neg {})", a.s()),
            E::Par(a) => format!("[{}]", a.s()),
        }
    }
    /// value before final rounding, and the largest scale of a literal
    pub fn eval(&self) -> Option<(Decimal, u32)> {
        match self {
            E::V(d) => Some((*d, d.scale())),
            E::Bin(o, a, b) => {
                let (a, sa) = a.eval()?;
                let (b, sb) = b.eval()?;
                let v = match o {
                    '+' => a.checked_add(b),
                    '-' => a.checked_sub(b),
                    '*' => a.checked_mul(b),
                    _ => a.checked_div(b),
                }?;
                Some((v, sa.max(sb)))
            }
            E::Neg(a) => a.eval().map(|(v, s)| (-v, s)),
            E::Par(a) => a.eval(),
        }
    }
    pub fn value(&self) -> Option<Decimal> {
        let (v, s) = self.eval()?;
        let mut r = v.round_dp_with_strategy(s, rust_decimal::RoundingStrategy::MidpointAwayFromZero);
        r.rescale(s);
        Some(r)
    }
    pub fn canon(&self) -> Option<String> {
        Some(format!("{} = {}", self.s(), dec(self.value()?)))
    }
}

// ---------------------------------------------------------------- one block

#[derive(Clone, Debug)]
pub enum Decl {
    Directive(Canon),
    Pushtag(String, Sp),
    Poptag(String, Sp),
    Pushmeta { key: String, kspan: Sp, fields: Vec<(String, String, Option<Sp>)> },
    Popmeta(String, Sp),
    Include(String, Sp),
    Option { name: String, nspan: Sp, value: String, vspan: Sp },
    Plugin(String, Option<String>),
}

/// why a block is refused
#[derive(Clone, Debug, PartialEq)]
pub enum Refuse {
    Syntax,
    /// well formed but something occurs twice, or does not evaluate
    Semantic(String),
}

struct P<'a> {
    text: &'a str,
    src: usize,
    toks: &'a [Tok],
    i: usize,
    st: &'a PState,
    sem: Vec<String>,
}

type O<T> = Option<T>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.toks.get(self.i).map(|t| &t.t)
    }
    fn tok(&self) -> &'a Tok {
        &self.toks[self.i]
    }
    fn txt(&self) -> &'a str {
        let t = self.tok();
        &self.text[t.s..t.e]
    }
    fn sp(&self) -> Sp {
        let t = self.tok();
        (self.src, t.s, t.e)
    }
    fn from(&self, start: usize) -> Sp {
        // from token index `start` to the token before the current one
        (self.src, self.toks[start].s, self.toks[self.i - 1].e)
    }
    fn sym(&mut self, s: &str) -> bool {
        if matches!(self.peek(), Some(T::Sym(x)) if *x == s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn kw(&mut self, s: &str) -> bool {
        if matches!(self.peek(), Some(T::Kw(x)) if *x == s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn end(&self) -> bool {
        self.i == self.toks.len()
    }
    fn date(&mut self) -> O<(String, Sp)> {
        if let Some(T::Date(d)) = self.peek() {
            let r = (d.clone(), self.sp());
            self.i += 1;
            Some(r)
        } else {
            None
        }
    }
    fn string(&mut self) -> O<(String, Sp)> {
        if let Some(T::Str(d)) = self.peek() {
            let r = (d.clone(), self.sp());
            self.i += 1;
            Some(r)
        } else {
            None
        }
    }
    fn currency(&mut self) -> O<(String, Sp)> {
        if matches!(self.peek(), Some(T::Cur)) && valid_currency(self.txt()) {
            let r = (self.txt().to_string(), self.sp());
            self.i += 1;
            Some(r)
        } else {
            None
        }
    }
    fn account(&mut self) -> O<(String, Sp)> {
        if matches!(self.peek(), Some(T::Acct)) {
            let (ty, rest) = self.txt().split_once(':').unwrap();
            if valid_account_type_name(ty) && valid_subaccount(rest) {
                if let Some(t) = self.st.names.type_of(ty) {
                    let r = (format!("{}<{}>", TYPES[t], self.txt()), self.sp());
                    self.i += 1;
                    return Some(r);
                }
            }
        }
        None
    }
    fn tag(&mut self) -> O<(String, Sp)> {
        if matches!(self.peek(), Some(T::Tag)) {
            let r = (self.txt()[1..].to_string(), self.sp());
            self.i += 1;
            Some(r)
        } else {
            None
        }
    }
    fn link(&mut self) -> O<(String, Sp)> {
        if matches!(self.peek(), Some(T::Link)) {
            let r = (self.txt()[1..].to_string(), self.sp());
            self.i += 1;
            Some(r)
        } else {
            None
        }
    }
    fn flag(&mut self) -> O<(String, Sp)> {
        let s = match self.peek() {
            Some(T::Flag(c)) if c.is_ascii_uppercase() => format!("'{}", c),
            Some(T::Flag(c)) => c.to_string(),
            Some(T::Sym("*")) => "*".to_string(),
            Some(T::Sym("#")) => "#".to_string(),
            _ => return None,
        };
        let r = (s, self.sp());
        self.i += 1;
        Some(r)
    }
    fn number(&mut self) -> O<(Decimal, Sp)> {
        if let Some(T::Num(d)) = self.peek() {
            let r = (*d, self.sp());
            self.i += 1;
            Some(r)
        } else {
            None
        }
    }

    // expressions: sums of products of optionally signed numbers or parentheses
    fn factor(&mut self) -> O<E> {
        let save = self.i;
        let neg = self.sym("-");
        if !neg {
            self.sym("+");
        }
        let x = if let Some((d, _)) = self.number() {
            E::V(d)
        } else if self.sym("(") {
            match self.sum() {
                Some(e) if self.sym(")") => E::Par(Box::new(e)),
                _ => {
                    self.i = save;
                    return None;
                }
            }
        } else {
            self.i = save;
            return None;
        };
        Some(if neg { E::Neg(Box::new(x)) } else { x })
    }
    fn chain(&mut self, ops: &[char], sub: fn(&mut Self) -> O<E>) -> O<E> {
        let mut l = sub(self)?;
        loop {
            let save = self.i;
            let op = ops.iter().find(|o| matches!(self.peek(), Some(T::Sym(x)) if x.len() == 1 && x.starts_with(**o)));
            let Some(op) = op else { break };
            self.i += 1;
            match sub(self) {
                Some(r) => l = E::Bin(*op, Box::new(l), Box::new(r)),
                None => {
                    self.i = save;
                    break;
                }
            }
        }
        Some(l)
    }
    fn product(&mut self) -> O<E> {
        self.chain(&['*', '/'], Self::factor)
    }
    fn sum(&mut self) -> O<E> {
        self.chain(&['+', '-'], Self::product)
    }
    fn expr(&mut self) -> O<(String, Sp)> {
        let start = self.i;
        let e = self.sum()?;
        let c = match e.canon() {
            Some(c) => c,
            None => {
                self.sem.push("expression has no value".into());
                "none".into()
            }
        };
        Some((c, self.from(start)))
    }

    /// (canonical value, extra fields)
    fn meta_value(&mut self) -> O<(String, Sp, Vec<(String, String, Sp)>)> {
        let start = self.i;
        let sem = self.sem.len();
        if let Some((n, nsp)) = self.expr() {
            if let Some((c, csp)) = self.currency() {
                return Some((
                    format!("amount {} {}", n, c),
                    self.from(start),
                    vec![(".number".into(), n, nsp), (".currency".into(), c, csp)],
                ));
            }
            return Some((format!("expr {}", n), nsp, vec![]));
        }
        self.sem.truncate(sem);
        let (v, s) = if let Some((x, s)) = self.string() {
            (format!("str {:?}", x), s)
        } else if let Some((x, s)) = self.currency() {
            (format!("cur {}", x), s)
        } else if let Some((x, s)) = self.account() {
            (format!("acc {}", x), s)
        } else if let Some((x, s)) = self.tag() {
            (format!("tag {}", x), s)
        } else if let Some((x, s)) = self.link() {
            (format!("link {}", x), s)
        } else if let Some((x, s)) = self.date() {
            (format!("date {}", x), s)
        } else if let Some(T::Bool(b)) = self.peek() {
            let s = self.sp();
            self.i += 1;
            (format!("bool {}", b), s)
        } else if let Some(T::Null) = self.peek() {
            let s = self.sp();
            self.i += 1;
            ("null".to_string(), s)
        } else {
            return None;
        };
        Some((v, s, vec![]))
    }

    /// `key:` and optional value; leaves the position after it
    fn key_value(&mut self) -> O<(String, Sp, Vec<(String, String, Option<Sp>)>)> {
        if !matches!(self.peek(), Some(T::Key)) {
            return None;
        }
        let (k, ks) = (self.txt().to_string(), self.sp());
        self.i += 1;
        if !self.sym(":") {
            return None;
        }
        let mut f: Vec<(String, String, Option<Sp>)> = vec![("key".into(), k.clone(), Some(ks))];
        match self.meta_value() {
            Some((v, s, extra)) => {
                f.push((format!("kv:{}", k), v, Some(s)));
                for (suffix, v, s) in extra {
                    f.push((format!("kv:{}{}", k, suffix), v, Some(s)));
                }
            }
            None => f.push((format!("kv:{}", k), "null".into(), None)),
        }
        Some((k, ks, f))
    }

    /// one metadata line, into canon with duplicate detection
    fn metadata_line(&mut self, c: &mut Canon, pre: &str) -> O<()> {
        match self.peek() {
            Some(T::Tag) => {
                let (t, s) = self.tag()?;
                self.add_unique(c, pre, "tag", t, s);
            }
            Some(T::Link) => {
                let (t, s) = self.link()?;
                self.add_unique(c, pre, "link", t, s);
            }
            _ => {
                let (k, _, f) = self.key_value()?;
                if c.fields.iter().any(|x| x.key == format!("{}key", pre) && x.val == k) {
                    self.sem.push(format!("duplicate key {}", k));
                } else {
                    for (key, val, span) in f {
                        c.add(format!("{}{}", pre, key), val, span);
                    }
                }
            }
        }
        self.end().then_some(())
    }
    fn add_unique(&mut self, c: &mut Canon, pre: &str, what: &str, val: String, span: Sp) {
        let key = format!("{}{}", pre, what);
        if c.fields.iter().any(|x| x.key == key && x.val == val) {
            self.sem.push(format!("duplicate {} {}", what, val));
        } else {
            c.add(key, val, Some(span));
        }
    }
    fn tags_links(&mut self, c: &mut Canon) {
        loop {
            if let Some((t, s)) = self.tag() {
                self.add_unique(c, "", "tag", t, s);
            } else if let Some((t, s)) = self.link() {
                self.add_unique(c, "", "link", t, s);
            } else {
                break;
            }
        }
    }
    fn amount(&mut self, c: &mut Canon) -> O<()> {
        let start = self.i;
        let (n, ns) = self.expr()?;
        let (x, xs) = self.currency()?;
        c.add("amount", "", Some(self.from(start)));
        c.add("amount.number", n, Some(ns));
        c.add("amount.currency", x, Some(xs));
        Some(())
    }

    fn header(&mut self, c: &mut Canon) -> O<bool> {
        let (d, ds) = self.date()?;
        c.add("date", d, Some(ds));
        let k = match self.peek() {
            Some(T::Kw(k)) if *k != "txn" => *k,
            _ => {
                // transaction
                c.add("kind", "transaction", None);
                let (f, fs) = if matches!(self.peek(), Some(T::Kw("txn"))) {
                    let s = self.sp();
                    self.i += 1;
                    ("*".to_string(), s)
                } else {
                    self.flag()?
                };
                c.add("flag", f, Some(fs));
                let s1 = self.string();
                let s2 = if s1.is_some() { self.string() } else { None };
                let (payee, narration) = if s2.is_some() { (s1, s2) } else { (None, s1) };
                if let Some((p, s)) = payee {
                    if !p.is_empty() {
                        c.add("payee", p, Some(s));
                    }
                }
                if let Some((p, s)) = narration {
                    if !p.is_empty() {
                        c.add("narration", p, Some(s));
                    }
                }
                self.tags_links(c);
                return self.end().then_some(true);
            }
        };
        self.i += 1;
        c.add("kind", k, None);
        macro_rules! put {
            ($key:expr, $e:expr) => {{
                let (v, s) = $e?;
                c.add($key, v, Some(s));
            }};
        }
        match k {
            "price" => {
                put!("currency", self.currency());
                self.amount(c)?;
            }
            "balance" => {
                put!("account", self.account());
                let start = self.i;
                let (n, ns) = self.expr()?;
                let tol = if self.sym("~") { Some(self.number()?) } else { None };
                let (x, xs) = self.currency()?;
                let whole = self.from(start);
                c.add("atol", "", Some(whole));
                c.add("amount", "", Some(whole));
                c.add("amount.number", n, Some(ns));
                c.add("amount.currency", x, Some(xs));
                if let Some((t, ts)) = tol {
                    c.add("tolerance", dec(t), Some(ts));
                }
            }
            "open" => {
                put!("account", self.account());
                if let Some((x, s)) = self.currency() {
                    c.add("currency", x, Some(s));
                    while self.sym(",") {
                        let (x, s) = self.currency()?;
                        self.add_unique(c, "", "currency", x, s);
                    }
                }
                if let Some((b, s)) = self.string() {
                    if !["STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO"].contains(&b.as_str()) {
                        return None;
                    }
                    c.add("booking", b, Some(s));
                }
            }
            "close" => put!("account", self.account()),
            "commodity" => put!("currency", self.currency()),
            "pad" => {
                put!("account", self.account());
                put!("source", self.account());
            }
            "document" => {
                put!("account", self.account());
                put!("path", self.string());
            }
            "note" => {
                put!("account", self.account());
                put!("comment", self.string());
            }
            "event" => {
                put!("event_type", self.string());
                put!("description", self.string());
            }
            "query" => {
                put!("name", self.string());
                put!("content", self.string());
            }
            "custom" => {
                put!("type", self.string());
                let mut n = 0;
                while let Some((v, s, extra)) = self.meta_value() {
                    c.add(format!("v{}", n), v, Some(s));
                    for (suffix, v, s) in extra {
                        c.add(format!("v{}{}", n, suffix), v, Some(s));
                    }
                    n += 1;
                }
                c.add("values", format!("{}", n), None);
            }
            _ => return None,
        }
        if k != "custom" {
            self.tags_links(c);
        }
        self.end().then_some(false)
    }

    fn cost(&mut self, c: &mut Canon, pre: &str) -> O<()> {
        // after `{`
        let start = self.i - 1;
        let mut seen: Vec<String> = vec![];
        let mut put = |c: &mut Canon, sem: &mut Vec<String>, k: &str, v: String, s: Option<Sp>| {
            if seen.iter().any(|x| x == k) {
                sem.push(format!("duplicate {}", k));
            } else {
                seen.push(k.to_string());
                c.add(format!("{}cost.{}", pre, k), v, s);
            }
        };
        if !self.sym("}") {
            loop {
                let cs = self.i;
                if let Some((e, _)) = self.expr() {
                    let mut total = None;
                    if self.sym("#") {
                        total = self.expr();
                    }
                    let cur = self.currency();
                    let span = Some(self.from(cs));
                    put(c, &mut self.sem, "per_unit", e, span);
                    if let Some((t, _)) = total {
                        put(c, &mut self.sem, "total", t, span);
                    }
                    if let Some((x, _)) = cur {
                        put(c, &mut self.sem, "currency", x, span);
                    }
                } else if self.sym("#") {
                    let total = self.expr();
                    let cur = self.currency();
                    if total.is_none() && cur.is_none() {
                        return None;
                    }
                    let span = Some(self.from(cs));
                    if let Some((t, _)) = total {
                        put(c, &mut self.sem, "total", t, span);
                    }
                    if let Some((x, _)) = cur {
                        put(c, &mut self.sem, "currency", x, span);
                    }
                } else if let Some((x, s)) = self.currency() {
                    put(c, &mut self.sem, "currency", x, Some(s));
                } else if let Some((x, s)) = self.date() {
                    put(c, &mut self.sem, "date", x, Some(s));
                } else if let Some((x, s)) = self.string() {
                    put(c, &mut self.sem, "label", x, Some(s));
                } else if self.sym("*") {
                    put(c, &mut self.sem, "merge", String::new(), None);
                } else {
                    return None;
                }
                if self.sym(",") {
                    continue;
                }
                if self.sym("}") {
                    break;
                }
                return None;
            }
        }
        c.add(format!("{}cost", pre), "", Some(self.from(start)));
        Some(())
    }

    fn posting(&mut self, c: &mut Canon, pre: &str) -> O<()> {
        if let Some((f, s)) = self.flag() {
            c.add(format!("{}flag", pre), f, Some(s));
        }
        let (a, s) = self.account()?;
        c.add(format!("{}account", pre), a, Some(s));
        if let Some((e, s)) = self.expr() {
            c.add(format!("{}amount", pre), e, Some(s));
        }
        if let Some((x, s)) = self.currency() {
            c.add(format!("{}currency", pre), x, Some(s));
        }
        if self.sym("{") {
            self.cost(c, pre)?;
        }
        let ps = self.i;
        let per_unit = self.sym("@");
        let total = !per_unit && self.sym("@@");
        if per_unit || total {
            let scope = if total { "total" } else { "per-unit" };
            let e = self.expr();
            let x = self.currency();
            let v = match (e, x) {
                (Some((e, _)), Some((x, _))) => format!("{} {} {}", scope, e, x),
                (Some((e, _)), None) => format!("{} {}", scope, e),
                (None, Some((x, _))) => format!("cur {}", x),
                (None, None) => "unspecified".into(),
            };
            c.add(format!("{}price", pre), v, Some(self.from(ps)));
        }
        c.add(format!("{}posting", pre), "", Some(self.from(0)));
        self.end().then_some(())
    }
}

/// Parse one block in the given state. `sem` problems make the block refused, but well formed.
pub fn parse_block(text: &str, src: usize, b: &Block, st: &PState) -> (Option<Decl>, Vec<String>) {
    let mut sem: Vec<String> = vec![];
    let pragma = matches!(b.lines[0].toks[0].t, T::Kw(_)) && !b.lines[0].indent;
    if pragma && b.lines.len() > 1 {
        // indented lines have no place below a pragma, which itself stands
        let head = Block { lines: vec![b.lines[0].clone()] };
        let d = parse_block_(text, src, &head, st, &mut sem);
        if d.is_some() {
            sem.insert(0, "syntax".into());
        }
        return (d, sem);
    }
    let d = parse_block_(text, src, b, st, &mut sem);
    (d, sem)
}

fn parse_block_(text: &str, src: usize, b: &Block, st: &PState, sem: &mut Vec<String>) -> Option<Decl> {
    if b.lines.iter().any(|l| l.toks.iter().any(|t| matches!(t.t, T::Bad | T::Time))) {
        return None;
    }
    if b.lines[0].indent {
        return None;
    }
    let mut p = P { text, src, toks: &b.lines[0].toks, i: 0, st, sem: vec![] };
    if let Some(T::Date(_)) = p.peek() {
        let mut c = Canon::default();
        let txn = p.header(&mut c)?;
        sem.append(&mut p.sem);
        let mut n = 0usize;
        for l in &b.lines[1..] {
            let mut q = P { text, src, toks: &l.toks, i: 0, st, sem: vec![] };
            let meta = matches!(q.peek(), Some(T::Tag | T::Link | T::Key));
            if meta {
                let pre = if n == 0 { String::new() } else { format!("p{}.", n - 1) };
                q.metadata_line(&mut c, &pre)?;
            } else {
                if !txn {
                    return None;
                }
                let pre = format!("p{}.", n);
                q.posting(&mut c, &pre)?;
                n += 1;
            }
            sem.append(&mut q.sem);
        }
        if txn {
            c.add("postings", format!("{}", n), None);
        }
        c.span = (src, b.start(), b.end());
        return Some(Decl::Directive(c.sorted()));
    }
    // pragmas
    if b.lines.len() > 1 {
        return None;
    }
    let start = 0;
    let d = if p.kw("pushtag") {
        let (t, _) = p.tag()?;
        Decl::Pushtag(t, p.from(start))
    } else if p.kw("poptag") {
        let (t, _) = p.tag()?;
        Decl::Poptag(t, p.from(start))
    } else if p.kw("pushmeta") {
        let (k, ks, f) = p.key_value()?;
        Decl::Pushmeta { key: k, kspan: ks, fields: f }
    } else if p.kw("popmeta") {
        if !matches!(p.peek(), Some(T::Key)) {
            return None;
        }
        let k = p.txt().to_string();
        p.i += 1;
        if !p.sym(":") {
            return None;
        }
        Decl::Popmeta(k, p.from(start))
    } else if p.kw("include") {
        let (s, sp) = p.string()?;
        Decl::Include(s, sp)
    } else if p.kw("option") {
        let (n, ns) = p.string()?;
        let (v, vs) = p.string()?;
        Decl::Option { name: n, nspan: ns, value: v, vspan: vs }
    } else if p.kw("plugin") {
        let (m, _) = p.string()?;
        let c = p.string();
        Decl::Plugin(m, c.map(|c| c.0))
    } else {
        return None;
    };
    if !p.end() {
        return None;
    }
    sem.append(&mut p.sem);
    Some(d)
}

// ---------------------------------------------------------------- options

#[derive(Clone, Debug, PartialEq)]
pub enum OptV {
    /// may be given once; canonical value
    Single(String),
    /// may be given several times with different keys; (key, canonical value)
    Multi(String, String),
    Name(usize, String),
    Maxlines(usize),
}

fn bool_ci(v: &str) -> Option<bool> {
    match v.to_ascii_lowercase().as_str() {
        "true" => Some(true),
        "false" => Some(false),
        _ => None,
    }
}

/// value check of an option; None: unknown option or bad value
pub fn option_value(name: &str, value: &str, dir: Option<&str>) -> Option<OptV> {
    let ty = |i: usize| valid_account_type_name(value).then(|| OptV::Name(i, value.to_string()));
    match name {
        "title" => Some(OptV::Single(value.to_string())),
        "name_assets" => ty(0),
        "name_liabilities" => ty(1),
        "name_equity" => ty(2),
        "name_income" => ty(3),
        "name_expenses" => ty(4),
        "account_previous_balances"
        | "account_previous_earnings"
        | "account_previous_conversions"
        | "account_current_earnings"
        | "account_current_conversions"
        | "account_unrealized_gains"
        | "account_rounding" => valid_subaccount(value).then(|| OptV::Single(value.to_string())),
        "conversion_currency" => valid_currency(value).then(|| OptV::Single(value.to_string())),
        "inferred_tolerance_default" => {
            let f: Vec<&str> = value.split(':').collect();
            if f.len() != 2 || !(f[0] == "*" || valid_currency(f[0])) {
                return None;
            }
            let d = parse_dec(f[1])?;
            Some(OptV::Multi(f[0].to_string(), format!("{}:{}", f[0], d)))
        }
        "inferred_tolerance_multiplier" => parse_dec(value).map(|d| OptV::Single(d.to_string())),
        "infer_tolerance_from_cost" => bool_ci(value).map(|b| OptV::Single(b.to_string())),
        "documents" => {
            let p = match dir {
                Some(d) if !value.starts_with('/') => format!("{}/{}", d, value),
                _ => value.to_string(),
            };
            // as paths are compared: . and repeated or trailing / do not matter
            let p = std::path::Path::new(&p).components().collect::<std::path::PathBuf>().to_string_lossy().to_string();
            Some(OptV::Multi(p.clone(), p))
        }
        "operating_currency" => valid_currency(value).then(|| OptV::Multi(value.to_string(), value.to_string())),
        "render_commas" => bool_ci(value)
            .or(match value {
                "1" => Some(true),
                "0" => Some(false),
                _ => None,
            })
            .map(|b| OptV::Single(b.to_string())),
        "long_string_maxlines" => value.parse::<usize>().ok().map(OptV::Maxlines),
        "booking_method" => ["STRICT", "STRICT_WITH_SIZE", "NONE", "AVERAGE", "FIFO", "LIFO", "HIFO"]
            .contains(&value)
            .then(|| OptV::Single(value.to_string())),
        "plugin_processing_mode" => ["DEFAULT", "RAW"].contains(&value).then(|| OptV::Single(value.to_string())),
        _ => None,
    }
}

// ---------------------------------------------------------------- whole input, one source

#[derive(Clone, Debug, Default)]
pub struct Parsed {
    pub id: usize,
    /// each block's position and its declaration, None if refused
    pub blocks: Vec<(usize, usize, Option<Decl>)>,
    /// problems found while parsing (syntax or semantic), by block
    pub problems: Vec<(usize, String)>,
    pub warnings: Vec<(usize, usize, Sp, Option<Sp>)>, // line count, allowed, string span, option span
    pub unknown: bool,
}

pub fn parse_source(text: &str, src: usize, dir: Option<&str>, st: &mut PState) -> Parsed {
    let toks = lex(text);
    let (ls, dropped_bad) = lines(toks);
    let bs = blocks(ls);
    let mut out = Parsed { id: src, unknown: dropped_bad, ..Default::default() };
    for (bi, b) in bs.iter().enumerate() {
        for l in &b.lines {
            for t in &l.toks {
                if let T::Str(s) = &t.t {
                    let n = s.matches('\n').count() + 1;
                    let allowed = st.maxlines.map(|m| m.0).unwrap_or(64);
                    if n > allowed {
                        out.warnings.push((n, allowed, (src, t.s, t.e), st.maxlines.map(|m| m.1)));
                    }
                }
            }
        }
        let (d, sem) = parse_block(text, src, b, st);
        let mut ok = d;
        if ok.is_none() {
            out.problems.push((bi, "syntax".into()));
        }
        for s in sem {
            out.problems.push((bi, s));
        }
        if let Some(Decl::Option { name, value, vspan, .. }) = &ok {
            match option_value(name, value, dir) {
                None => {
                    out.problems.push((bi, "bad option".into()));
                    ok = None;
                }
                Some(OptV::Name(t, n)) => {
                    if !st.names.update(t, &n) {
                        out.problems.push((bi, "account type name in use".into()));
                        ok = None;
                    }
                }
                Some(OptV::Maxlines(n)) => st.maxlines = Some((n, *vspan)),
                _ => (),
            }
        }
        out.blocks.push((b.start(), b.end(), ok));
    }
    out
}

impl Parsed {
    /// the declaration cannot be read at all, as opposed to one that is read and then found wanting
    fn malformed(&self, b: usize) -> bool {
        self.problems.iter().any(|(c, p)| *c == b && (p == "syntax" || p.strip_prefix("duplicate ").is_some_and(|d| !d.contains(' '))))
    }
    pub fn faulty(&self, b: usize) -> bool {
        self.problems.iter().any(|(c, _)| *c == b)
    }
    /// Per block: it follows a malformed one with nothing but faulty ones between, so that it need
    /// not be reported before that one is repaired.
    pub fn shadowed(&self) -> Vec<bool> {
        let mut v = vec![];
        let mut on = false;
        for b in 0..self.blocks.len() {
            on = on && self.faulty(b);
            v.push(on);
            on = on || self.malformed(b);
        }
        v
    }
}

/// Processing of declarations in order: pragma stacks, options, plugins.
#[derive(Clone, Debug, Default)]
pub struct Proc {
    pub tags: Vec<(String, Sp)>,
    pub meta: Vec<(String, Sp, Vec<(String, String, Option<Sp>)>)>,
    pub options: BTreeMap<String, Vec<(String, String)>>, // name -> (key, value)
    pub plugins: Vec<(String, Option<String>)>,
    pub directives: Vec<Canon>,
    pub problems: Vec<String>,
}

impl Proc {
    pub fn step(&mut self, d: &Decl, dir: Option<&str>) {
        match d {
            Decl::Directive(c) => {
                let mut c = c.clone();
                let mut done: Vec<&str> = vec![];
                for (t, _) in self.tags.iter().rev() {
                    if !done.contains(&t.as_str()) {
                        done.push(t);
                        if !c.fields.iter().any(|f| f.key == "tag" && &f.val == t) {
                            c.add("tag", t.clone(), None);
                        }
                    }
                }
                let own: Vec<String> = c.fields.iter().filter(|f| f.key == "key").map(|f| f.val.clone()).collect();
                let mut done: Vec<&str> = vec![];
                for (k, _, f) in self.meta.iter().rev() {
                    if !done.contains(&k.as_str()) {
                        done.push(k);
                        if !own.contains(k) {
                            for (key, val, span) in f {
                                c.add(key.clone(), val.clone(), *span);
                            }
                        }
                    }
                }
                self.directives.push(c.sorted());
            }
            Decl::Pushtag(t, s) => self.tags.push((t.clone(), *s)),
            Decl::Poptag(t, _) => match self.tags.iter().rposition(|x| &x.0 == t) {
                Some(i) => {
                    self.tags.remove(i);
                }
                None => self.problems.push(format!("poptag {} without pushtag", t)),
            },
            Decl::Pushmeta { key, kspan, fields } => self.meta.push((key.clone(), *kspan, fields.clone())),
            Decl::Popmeta(k, _) => match self.meta.iter().rposition(|x| &x.0 == k) {
                Some(i) => {
                    self.meta.remove(i);
                }
                None => self.problems.push(format!("popmeta {} without pushmeta", k)),
            },
            Decl::Include(..) => self.problems.push("include in single source".into()),
            Decl::Option { name, value, .. } => match option_value(name, value, dir) {
                Some(OptV::Single(v)) => {
                    let e = self.options.entry(name.clone()).or_default();
                    if e.is_empty() {
                        e.push((String::new(), v));
                    } else {
                        self.problems.push(format!("duplicate option {}", name));
                    }
                }
                Some(OptV::Multi(k, v)) => {
                    let e = self.options.entry(name.clone()).or_default();
                    if e.iter().any(|x| x.0 == k) {
                        self.problems.push(format!("duplicate option value {} {}", name, k));
                    } else {
                        e.push((k, v));
                    }
                }
                _ => (),
            },
            Decl::Plugin(m, c) => self.plugins.push((m.clone(), c.clone())),
        }
    }
    pub fn finish(&mut self) {
        for (t, _) in &self.tags {
            self.problems.push(format!("pushtag {} without poptag", t));
        }
        for (k, _, _) in &self.meta {
            self.problems.push(format!("pushmeta {} without popmeta", k));
        }
        sort_directives(&mut self.directives);
    }
}

pub fn sort_directives(v: &mut [Canon]) {
    v.sort_by_key(|c| {
        let class = match c.get("kind").unwrap().val.as_str() {
            "open" => 0,
            "balance" => 1,
            _ => 2,
        };
        (c.get("date").unwrap().val.clone(), class)
    });
}

#[derive(Clone, Debug, Default)]
pub struct Expected {
    pub unknown: bool,
    pub ok: bool,
    pub problems: Vec<String>,
    pub directives: Vec<Canon>,
    pub options: Vec<(String, String)>,
    pub plugins: Vec<(String, Option<String>)>,
    pub warnings: Vec<(usize, usize, Sp, Option<Sp>)>,
    pub blocks: Vec<(usize, usize, Option<Decl>)>,
}

pub fn canon_options(p: &Proc, st: &PState) -> Vec<(String, String)> {
    let mut v = vec![];
    for (k, vals) in &p.options {
        for (_, x) in vals {
            v.push((k.clone(), if k == "plugin_processing_mode" { x.clone() } else { x.clone() }));
        }
    }
    if let Some((n, _)) = st.maxlines {
        v.push(("long_string_maxlines".into(), n.to_string()));
    }
    for (i, t) in TYPES.iter().enumerate() {
        v.push((format!("name_{}", t.to_lowercase()), st.names.by_type[i].clone()));
    }
    v.sort();
    v
}

/// The reference verdict for one inline source (no includes).
pub fn expect(text: &str) -> Expected {
    let mut st = PState::default();
    let parsed = parse_source(text, 0, None, &mut st);
    let mut proc_ = Proc::default();
    for (_, _, d) in &parsed.blocks {
        if let Some(d) = d {
            proc_.step(d, None);
        }
    }
    proc_.finish();
    let mut problems: Vec<String> = parsed.problems.iter().map(|p| p.1.clone()).collect();
    problems.extend(proc_.problems.iter().cloned());
    Expected {
        unknown: parsed.unknown,
        ok: problems.is_empty(),
        options: canon_options(&proc_, &st),
        problems,
        directives: proc_.directives,
        plugins: proc_.plugins,
        warnings: parsed.warnings,
        blocks: parsed.blocks,
    }
}

/// Compare verdict and, when accepted, everything returned (values only).
pub fn compare(text: &str, exp: &Expected, out: &Outcome) -> Result<(), String> {
    if exp.unknown {
        return Ok(());
    }
    if exp.ok != out.ok {
        return Err(if exp.ok {
            format!("valid input refused: {:?}: {:?}", text, out.errors.iter().map(|e| (&e.message, e.span)).collect::<Vec<_>>())
        } else {
            format!("invalid input accepted ({}): {:?}", exp.problems.join("; "), text)
        });
    }
    if !exp.ok {
        if out.errors.is_empty() {
            return Err(format!("refused without an error: {:?}", text));
        }
        return Ok(());
    }
    if exp.directives.len() != out.directives.len() {
        return Err(format!("{} directives expected, {} returned: {:?}", exp.directives.len(), out.directives.len(), text));
    }
    for (i, (a, b)) in exp.directives.iter().zip(&out.directives).enumerate() {
        if let Some(d) = a.diff_values(b) {
            return Err(format!("directive {}: {}: {:?}", i, d, text));
        }
    }
    if exp.plugins != out.plugins {
        return Err(format!("plugins: expected {:?}, got {:?}: {:?}", exp.plugins, out.plugins, text));
    }
    if exp.options != out.options {
        return Err(format!("options: expected {:?}, got {:?}: {:?}", exp.options, out.options, text));
    }
    Ok(())
}

/// Spans, for accepted input: every field's, and each directive's extent.
pub fn compare_spans(text: &str, exp: &Expected, out: &Outcome) -> Result<(), String> {
    for (i, (a, b)) in exp.directives.iter().zip(&out.directives).enumerate() {
        if let Some(d) = a.diff_spans(b) {
            return Err(format!("directive {}: {}: {:?}", i, d, text));
        }
        let (es, ee) = (a.span.1, a.span.2);
        let next = exp.blocks.iter().map(|x| x.0).filter(|s| *s > es).min().unwrap_or(text.len());
        if b.span.1 != es || b.span.2 < ee || b.span.2 > next {
            return Err(format!("directive {}: extent {:?}, expected {}..{} (at most {}): {:?}", i, b.span, es, ee, next, text));
        }
    }
    Ok(())
}
