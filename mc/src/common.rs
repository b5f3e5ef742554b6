//! Alphabets, word families and the basic comparison of implementation and reference model.

use crate::{canon::*, engine::*, refm};
use std::sync::Arc;

pub type Check = fn(&str, &mut Ctx) -> R;

/// verdict and every returned value agree with the reference model
pub fn agree(text: &str, ctx: &mut Ctx) -> R {
    agree_(text, ctx, false)
}

/// as `agree`, and every span too
pub fn agree_spans(text: &str, ctx: &mut Ctx) -> R {
    agree_(text, ctx, true)
}

fn agree_(text: &str, ctx: &mut Ctx, spans: bool) -> R {
    let exp = refm::expect(text);
    let out = guarded(|| parse_text(text)).map_err(|e| format!("{}: {:?}", e, text))?;
    note(ctx, text, &exp);
    refm::compare(text, &exp, &out)?;
    if spans && exp.ok && !exp.unknown {
        refm::compare_spans(text, &exp, &out)?;
    }
    Ok(())
}

pub fn note(ctx: &mut Ctx, text: &str, exp: &refm::Expected) {
    ctx.trace(exp.blocks.len() as u64 + 1);
    ctx.verdict(exp.ok);
    if exp.ok {
        ctx.state(&(&exp.directives, &exp.options, &exp.plugins));
        for d in &exp.directives {
            if let Some(k) = d.get("kind") {
                let n = d.fields.len() - d.fields.iter().filter(|f| f.key == "kind" || f.key == "date").count();
                ctx.outcome(&format!("accepted {} with {} fields", k.val, n));
            }
        }
        if exp.directives.is_empty() {
            ctx.outcome("accepted, no directive");
        }
    } else {
        ctx.state(&exp.problems);
        ctx.outcome(&format!("refused: {}", exp.problems.iter().map(|p| p.split(' ').take(2).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(", ")));
    }
    ctx.sample(|| format!("{:?} -> {}", text, if exp.ok { format!("{} directives", exp.directives.len()) } else { format!("refused: {}", exp.problems.join("; ")) }));
}

/// every word of length <= n over the alphabet, in each context (prefix, suffix), joined by sep
pub fn words_family(
    name: &str,
    what: &str,
    contexts: &[(&str, &str)],
    alphabet: &[&str],
    n: u32,
    sep: &'static str,
    check: Check,
) -> Family {
    let k = alphabet.len() as u64;
    let per = words_count(k, n);
    let contexts: Vec<(String, String)> = contexts.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let alphabet: Vec<String> = alphabet.iter().map(|s| s.to_string()).collect();
    let bounds = format!(
        "{}: all words of length 0..={} over {} symbols {:?}, in {} contexts",
        what,
        n,
        k,
        alphabet,
        contexts.len()
    );
    let nc = contexts.len() as u64;
    family(name, bounds, per * nc, move |i, ctx| {
        let (c, w) = (i % nc, i / nc);
        let (pre, post) = &contexts[c as usize];
        let mut t = pre.clone();
        for (j, s) in word(w, k).iter().enumerate() {
            if j > 0 {
                t += sep;
            }
            t += &alphabet[*s];
        }
        t += post;
        check(&t, ctx)
    })
}

/// an explicit list of inputs
pub fn texts_family(name: &str, bounds: impl Into<String>, texts: Vec<String>, check: Check) -> Family {
    let texts = Arc::new(texts);
    family(name, bounds, texts.len() as u64, move |i, ctx| check(&texts[i as usize], ctx))
}

/// cartesian product of string lists, concatenated
pub fn cross(parts: &[Vec<String>]) -> Vec<String> {
    let mut v = vec![String::new()];
    for p in parts {
        let mut w = Vec::with_capacity(v.len() * p.len());
        for a in &v {
            for b in p {
                w.push(format!("{}{}", a, b));
            }
        }
        v = w;
    }
    v
}

pub fn strs(s: &[&str]) -> Vec<String> {
    s.iter().map(|x| x.to_string()).collect()
}

pub fn refs(v: &[(String, String)]) -> Vec<(&str, &str)> {
    v.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect()
}

/// every combination of one choice per slot, concatenated
pub fn grid_family(name: &str, what: &str, slots: &[&[&str]], check: Check) -> Family {
    let slots: Vec<Vec<String>> = slots.iter().map(|s| strs(s)).collect();
    grid_family_(name, what, slots, check)
}

pub fn grid_family_(name: &str, what: &str, slots: Vec<Vec<String>>, check: Check) -> Family {
    let radices: Vec<u64> = slots.iter().map(|s| s.len() as u64).collect();
    let n = product(&radices);
    let bounds = format!("{}: all {} combinations of {:?} choices", what, n, radices);
    family(name, bounds, n, move |i, ctx| {
        let t: String = digits(i, &radices).iter().zip(&slots).map(|(d, s)| s[*d].as_str()).collect();
        check(&t, ctx)
    })
}

/// every character of interest: all of ASCII, and others of each class that matters
pub fn all_chars() -> Vec<String> {
    let mut v: Vec<String> = (0u8..128).map(|c| (c as char).to_string()).collect();
    v.extend("\u{80}\u{85}\u{a0}\u{ad}½²ªßéÉ\u{301}ǅΩжЖ日あア٢५Ⅷ€\u{200b}\u{200e}\u{2028}\u{2029}\u{3000}\u{feff}\u{fffd}😀𝔸".chars().map(|c| c.to_string()));
    v
}

/// every single-character edit of the bases: insert at, replace, delete, double or swap with the next at every place
pub fn edits_family(name: &str, bases: &[&str], chars: Vec<String>, check: Check) -> Family {
    let bases: Vec<Vec<char>> = bases.iter().map(|b| b.chars().collect()).collect();
    let k = chars.len() as u64;
    let per = 2 * k + 3;
    let mut off = vec![];
    let mut total = 0u64;
    for b in &bases {
        off.push(total);
        total += (b.len() as u64 + 1) * per;
    }
    let bounds = format!("{} texts, at every place: each of {} characters inserted or put instead, the character there deleted, doubled or swapped with the next", bases.len(), k);
    family(name, bounds, total, move |i, ctx| {
        let bi = off.iter().rposition(|o| *o <= i).unwrap();
        let b = &bases[bi];
        let (at, op) = (((i - off[bi]) / per) as usize, (i - off[bi]) % per);
        let mut t: String = b[..at].iter().collect();
        if op < k {
            t += &chars[op as usize];
            t.extend(&b[at..]);
        } else if at == b.len() {
            return Ok(());
        } else if op < 2 * k {
            t += &chars[(op - k) as usize];
            t.extend(&b[at + 1..]);
        } else if op == 2 * k {
            t.extend(&b[at + 1..]);
        } else if op == 2 * k + 1 {
            t.push(b[at]);
            t.extend(&b[at..]);
        } else if at + 1 < b.len() {
            t.push(b[at + 1]);
            t.push(b[at]);
            t.extend(&b[at + 2..]);
        } else {
            return Ok(());
        }
        check(&t, ctx)
    })
}

/// every single-token edit of the bases (tokens are separated by one space or follow a newline): drop, double, swap, replace, insert
pub fn token_edits(bases: &[&str], tokens: &[&str]) -> Vec<String> {
    let mut out = std::collections::BTreeSet::new();
    for b in bases {
        // a token keeps the space or line break before it
        let mut toks: Vec<(String, String)> = vec![];
        let (mut gap, mut cur, mut quoted) = (String::new(), String::new(), false);
        for c in b.chars() {
            if (c == ' ' || c == '\n') && !quoted {
                if !cur.is_empty() {
                    toks.push((std::mem::take(&mut gap), std::mem::take(&mut cur)));
                }
                gap.push(c);
            } else {
                if c == '"' {
                    quoted = !quoted;
                }
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            toks.push((std::mem::take(&mut gap), cur));
        }
        let end = gap;
        let show = |t: &[(String, String)]| t.iter().map(|(g, x)| format!("{}{}", g, x)).collect::<String>() + &end;
        out.insert(show(&toks));
        for i in 0..=toks.len() {
            if i < toks.len() {
                let mut x = toks.clone();
                x.remove(i);
                out.insert(show(&x));
                // without the token but with its gap
                let mut x = toks.clone();
                x[i].1.clear();
                out.insert(show(&x));
                let mut x = toks.clone();
                x.insert(i + 1, (" ".into(), toks[i].1.clone()));
                out.insert(show(&x));
                for j in i + 1..toks.len() {
                    let mut x = toks.clone();
                    let (a, b) = (x[i].1.clone(), x[j].1.clone());
                    x[i].1 = b;
                    x[j].1 = a;
                    out.insert(show(&x));
                }
                // joined to the next line, or on a line of its own
                for g in [" ", "\n", "\n  "] {
                    let mut x = toks.clone();
                    x[i].0 = g.into();
                    out.insert(show(&x));
                }
            }
            for t in tokens {
                let mut x = toks.clone();
                x.insert(i, (if i == 0 { "" } else { " " }.into(), t.to_string()));
                if i == 0 && x.len() > 1 {
                    x[1].0 = " ".into();
                }
                out.insert(show(&x));
                if i < toks.len() {
                    let mut x = toks.clone();
                    x[i].1 = t.to_string();
                    out.insert(show(&x));
                    let mut x = toks.clone();
                    x.insert(i, (toks[i].0.clone(), t.to_string()));
                    x[i + 1].0 = " ".into();
                    out.insert(show(&x));
                }
            }
        }
    }
    out.into_iter().collect()
}

/// every number up to `dense`, then numbers around those at which limits are likely
pub fn sizes(t: Tier, dense: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    v.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1100].iter().filter(|n| **n > dense));
    if t == Tier::Thorough {
        v.extend([2000, 2049, 4095, 4096, 4097, 5000]);
    }
    v
}
