//! Reference lexer, written from the documented lexical grammar:
//!
//! * trivia: `[\t\n\r ]+`, `//[^\n]*`, `/* ... */` up to the first `*/`
//! * identifier / keyword word: `_?[A-Za-z][0-9A-Za-z_-]*`
//! * float: `-?(([0-9]+\.[0-9]*|[0-9]*\.[0-9]+)([Ee][+-]?[0-9]+)?|[0-9]+[Ee][+-]?[0-9]+)`
//! * dec `-?[1-9][0-9]*`, hex `-?0[Xx][0-9A-Fa-f]+`, oct `-?0[0-7]*`
//! * string `"[^"]*"`, symbols, `-Infinity`
//!
//! Nothing here uses weedle or nom.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Word,
    Str,
    Float,
    Dec,
    Hex,
    Oct,
    NegInf,
    Sym,
    /// no token starts here
    Invalid,
    Eof,
}

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
}

pub fn is_word_byte(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'-'
}

/// Length of the whitespace and comments at the front of `s`.
pub fn trivia_len(s: &str) -> usize {
    let b = s.as_bytes();
    let mut i = 0;
    loop {
        if i >= b.len() {
            return i;
        }
        match b[i] {
            b'\t' | b'\n' | b'\r' | b' ' => i += 1,
            b'/' if b.get(i + 1) == Some(&b'/') => {
                i += 2;
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'/' if b.get(i + 1) == Some(&b'*') => {
                let mut j = i + 2;
                loop {
                    if j + 1 >= b.len() {
                        return i; // not closed: not a comment
                    }
                    if b[j] == b'*' && b[j + 1] == b'/' {
                        break;
                    }
                    j += 1;
                }
                i = j + 2;
            }
            _ => return i,
        }
    }
}

fn digits(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    i
}

pub fn match_word(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let mut i = 0;
    if b.first() == Some(&b'_') {
        i = 1;
    }
    if !b.get(i)?.is_ascii_alphabetic() {
        return None;
    }
    while i < b.len() && is_word_byte(b[i]) {
        i += 1;
    }
    Some(i)
}

pub fn match_dec(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let i = (b.first() == Some(&b'-')) as usize;
    if (b'1'..=b'9').contains(b.get(i)?) {
        Some(digits(b, i))
    } else {
        None
    }
}

pub fn match_hex(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let i = (b.first() == Some(&b'-')) as usize;
    if *b.get(i)? != b'0' || !matches!(b.get(i + 1)?, b'x' | b'X') {
        return None;
    }
    let mut j = i + 2;
    while j < b.len() && b[j].is_ascii_hexdigit() {
        j += 1;
    }
    if j == i + 2 {
        None
    } else {
        Some(j)
    }
}

pub fn match_oct(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let i = (b.first() == Some(&b'-')) as usize;
    if *b.get(i)? != b'0' {
        return None;
    }
    let mut j = i + 1;
    while j < b.len() && (b'0'..=b'7').contains(&b[j]) {
        j += 1;
    }
    Some(j)
}

fn exponent(b: &[u8], i: usize) -> Option<usize> {
    if !matches!(b.get(i)?, b'e' | b'E') {
        return None;
    }
    let mut j = i + 1;
    if matches!(b.get(j), Some(b'+') | Some(b'-')) {
        j += 1;
    }
    let e = digits(b, j);
    if e > j {
        Some(e)
    } else {
        None
    }
}

pub fn match_float(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    let i = (b.first() == Some(&b'-')) as usize;
    let d = digits(b, i);
    if b.get(d) == Some(&b'.') {
        let f = digits(b, d + 1);
        if d > i || f > d + 1 {
            return Some(exponent(b, f).unwrap_or(f));
        }
    }
    if d > i {
        return exponent(b, d);
    }
    None
}

pub fn match_str(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    if b.first() != Some(&b'"') {
        return None;
    }
    b[1..].iter().position(|&c| c == b'"').map(|p| p + 2)
}

pub const SYMBOLS: &[&str] = &[
    "...", "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "<", "=", ">", "?", "*",
];

/// The token at the very front of `s` (no trivia skipped).
pub fn token_at(s: &str) -> (Kind, usize) {
    if s.is_empty() {
        return (Kind::Eof, 0);
    }
    if let Some(n) = match_word(s) {
        return (Kind::Word, n);
    }
    if let Some(n) = match_str(s) {
        return (Kind::Str, n);
    }
    if s.starts_with("...") {
        return (Kind::Sym, 3);
    }
    if let Some(n) = match_float(s) {
        return (Kind::Float, n);
    }
    if let Some(n) = match_dec(s) {
        return (Kind::Dec, n);
    }
    if let Some(n) = match_hex(s) {
        return (Kind::Hex, n);
    }
    if let Some(n) = match_oct(s) {
        return (Kind::Oct, n);
    }
    if let Some(r) = s.strip_prefix("-Infinity") {
        if !r.bytes().next().map_or(false, is_word_byte) {
            return (Kind::NegInf, 9);
        }
    }
    for y in SYMBOLS {
        if s.starts_with(y) {
            return (Kind::Sym, y.len());
        }
    }
    (Kind::Invalid, 0)
}

/// All tokens up to and including the first `Invalid` or `Eof`.
pub fn lex(s: &str) -> Vec<Tok> {
    let mut v = Vec::with_capacity(s.len() / 4 + 2);
    let mut i = 0;
    loop {
        i += trivia_len(&s[i..]);
        let (kind, n) = token_at(&s[i..]);
        v.push(Tok { kind, start: i, end: i + n });
        if matches!(kind, Kind::Eof | Kind::Invalid) {
            return v;
        }
        i += n;
    }
}

/// Every word the documented grammar uses as a keyword.
pub const KEYWORDS: &[&str] = &[
    "or", "optional", "async", "attribute", "callback", "const", "deleter", "dictionary", "enum",
    "getter", "includes", "inherit", "interface", "iterable", "maplike", "namespace", "partial",
    "required", "setlike", "setter", "static", "stringifier", "typedef", "unrestricted", "symbol",
    "ByteString", "DOMString", "FrozenArray", "Infinity", "NaN", "USVString", "any", "boolean",
    "byte", "double", "false", "float", "long", "null", "object", "octet", "sequence", "short",
    "true", "unsigned", "undefined", "record", "ArrayBuffer", "DataView", "Int8Array",
    "Int16Array", "Int32Array", "Uint8Array", "Uint16Array", "Uint32Array", "Uint8ClampedArray",
    "Float32Array", "Float64Array", "ArrayBufferView", "BufferSource", "Promise", "Error",
    "readonly", "mixin", "implements", "legacycaller", "constructor",
];
