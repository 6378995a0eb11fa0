//! Words, characters and numbers written in the source of the crate under test, as a fuzzing
//! dictionary. They only steer what is generated: texts, names, sizes. No verdict depends on them.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// string literals, at most 80 bytes, that are no keyword or symbol of the grammar
    pub words: Vec<String>,
    /// those of them (or words inside them) that can be names
    pub names: Vec<String>,
    /// unusual characters
    pub chars: Vec<char>,
    /// numbers, with their neighbours
    pub sizes: Vec<usize>,
    /// numbers too large for the ladders, that are not those of the literals in the crate's own tests
    pub large: Vec<usize>,
}

/// numbers in the tests of the crate
const KNOWN: &[usize] = &[32_334, 123_123, 123_456_789];

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("WEEDLE_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = vec![];
        walk(&Path::new(&root).join("src"), &mut files);
        files.sort();
        let mut d = Sets::default();
        for f in files {
            if let Ok(t) = std::fs::read_to_string(&f) {
                scan(&t, &mut d);
            }
        }
        let common = |w: &str| super::lex::KEYWORDS.contains(&w) || super::lex::SYMBOLS.contains(&w) || w.is_empty();
        let mut names = BTreeSet::new();
        for w in &d.words {
            for n in w.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '-')) {
                let b = n.strip_prefix('_').unwrap_or(n);
                if b.as_bytes().first().map_or(false, |c| c.is_ascii_alphabetic()) && !common(b) && b.len() < 40 {
                    names.insert(n.to_string());
                }
            }
        }
        let sizes: BTreeSet<usize> = d.sizes.iter().flat_map(|n| [n.saturating_sub(1), *n, n + 1]).filter(|n| *n > 1).collect();
        Dict {
            words: d.words.into_iter().filter(|w| !common(w)).collect(),
            names: names.into_iter().collect(),
            chars: d.chars.into_iter().collect(),
            large: d.sizes.iter().copied().filter(|n| (4000..=1_100_000).contains(n) && !KNOWN.contains(n)).take(6).collect(),
            sizes: sizes.into_iter().collect(),
        }
    })
}

#[derive(Default)]
struct Sets {
    words: BTreeSet<String>,
    chars: BTreeSet<char>,
    sizes: BTreeSet<usize>,
}

fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(r) = std::fs::read_dir(d) {
        for e in r.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out)
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p)
            }
        }
    }
}

fn escape(c: &[char], i: &mut usize) -> Option<char> {
    // at the character after the backslash; leaves `i` after the escape
    let e = *c.get(*i)?;
    *i += 1;
    Some(match e {
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        '0' => '\0',
        'x' => {
            let h: String = c.get(*i..*i + 2)?.iter().collect();
            *i += 2;
            u8::from_str_radix(&h, 16).ok()? as char
        }
        'u' => {
            let mut h = String::new();
            *i += 1;
            while *c.get(*i)? != '}' {
                h.push(c[*i]);
                *i += 1;
            }
            *i += 1;
            char::from_u32(u32::from_str_radix(&h.replace('_', ""), 16).ok()?)?
        }
        '\n' => {
            while c.get(*i).map_or(false, |x| x.is_whitespace()) {
                *i += 1;
            }
            return None;
        }
        other => other,
    })
}

fn scan(t: &str, out: &mut Sets) {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut last: Option<(usize, usize)> = None; // a number, and where it ended
    while i < c.len() {
        let word_before = i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_');
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && c.get(i + 1) == Some(&'/')) {
                    i += 1;
                }
                i += 2;
            }
            'r' if !word_before && matches!(c.get(i + 1), Some('"') | Some('#')) => {
                let mut k = i + 1;
                while c.get(k) == Some(&'#') {
                    k += 1;
                }
                if c.get(k) != Some(&'"') {
                    i += 1;
                    continue;
                }
                let n = k - i - 1;
                let from = k + 1;
                let mut e = from;
                while e < c.len() && !(c[e] == '"' && c[e + 1..].iter().take(n).filter(|x| **x == '#').count() == n) {
                    e += 1;
                }
                word(c[from.min(e)..e].iter().collect(), out);
                i = e + 1 + n;
            }
            '"' => {
                i += 1;
                let mut w = String::new();
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        w.extend(escape(&c, &mut i));
                    } else {
                        w.push(c[i]);
                        i += 1;
                    }
                }
                i += 1;
                word(w, out);
            }
            '\'' => {
                if c.get(i + 1) == Some(&'\\') {
                    let mut k = i + 2;
                    let x = escape(&c, &mut k);
                    out.chars.extend(x);
                    i = k.max(i + 2) + 1;
                } else if c.get(i + 2) == Some(&'\'') {
                    out.chars.insert(c[i + 1]);
                    i += 3;
                } else {
                    i += 1;
                }
            }
            d if d.is_ascii_digit() && !word_before => {
                let from = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                let w: String = c[from..i].iter().filter(|x| **x != '_').collect();
                if let Some(n) = number(&w) {
                    let gap: String = last.map_or(String::new(), |(_, e)| c[e..from].iter().filter(|x| !x.is_whitespace()).collect());
                    if let (Some((a, _)), "<<", true) = (last, gap.as_str(), n < 24 && last.map_or(false, |l| l.0 < 100)) {
                        out.sizes.insert(a << n);
                    }
                    if let (Some((a, _)), "*", true) = (last, gap.as_str(), n < 1 << 24 && last.map_or(false, |l| l.0 < 1 << 24)) {
                        out.sizes.insert(a * n);
                    }
                    if n < 1 << 40 {
                        out.sizes.insert(n);
                        last = Some((n, i));
                    }
                }
            }
            _ => i += 1,
        }
    }
}

fn number(w: &str) -> Option<usize> {
    let w = ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"].iter().find_map(|s| w.strip_suffix(s)).unwrap_or(w);
    if let Some(h) = w.strip_prefix("0x") {
        usize::from_str_radix(h, 16).ok()
    } else if let Some(h) = w.strip_prefix("0b") {
        usize::from_str_radix(h, 2).ok()
    } else if let Some(h) = w.strip_prefix("0o") {
        usize::from_str_radix(h, 8).ok()
    } else {
        w.parse().ok()
    }
}

fn word(w: String, out: &mut Sets) {
    for c in w.chars() {
        if !c.is_ascii() || c.is_ascii_control() {
            out.chars.insert(c);
        }
    }
    if w.len() <= 80 {
        out.words.insert(w);
    }
}
