//! Generators: random derivations of the documented grammar (with the tree they stand for),
//! words, literals, strings, trivia, and edits that may leave the grammar.

use crate::dict::dict;
use crate::engine::Src;
use crate::grammar::{grammar, Grammar, E};
use crate::lex::{is_word_byte, KEYWORDS, SYMBOLS};
use crate::tree::*;

#[derive(Clone, Debug)]
pub struct Tk {
    pub text: String,
}
impl Tk {
    pub fn new(s: &str) -> Tk {
        Tk { text: s.into() }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dim {
    List,
    IdentLen,
    StrLen,
    Digits,
    TypeDepth,
}

#[derive(Clone)]
pub struct Profile {
    /// % of identifiers that look like keywords (keyword + suffix, other case, ...)
    pub kwish: u32,
    /// % of identifiers that are exactly a keyword (ambiguous: the reference parser decides)
    pub keyword: u32,
    /// % of identifiers with underscores, hyphens, digits, escapes
    pub weird: u32,
    pub attr: u32,
    pub opt: u32,
    pub mean: u32,
    pub type_depth: u32,
    pub dup: u32,
    /// % of strings with awkward content
    pub nasty_str: u32,
    /// in 1000 cases, so many have one dimension blown up
    pub big: u32,
    pub big_max: u32,
    pub budget: usize,
    /// weight overrides by alternative label
    pub weights: &'static [(&'static str, u32)],
}

pub const BASE: Profile = Profile {
    kwish: 8,
    keyword: 0,
    weird: 15,
    attr: 15,
    opt: 40,
    mean: 2,
    type_depth: 3,
    dup: 6,
    nasty_str: 30,
    big: 2,
    big_max: 1 << 13,
    budget: 250,
    weights: &[],
};

pub struct Gen<'s> {
    pub s: &'s mut Src,
    pub p: Profile,
    pub toks: Vec<Tk>,
    g: &'static Grammar,
    depth: u32,
    attr_depth: u32,
    no_str_key: bool,
    no_type_attr: bool,
    big: Option<(Dim, u32)>,
    /// a keyword was used as a name: the derivation need not be the documented reading
    pub ambiguous: bool,
    lower: usize,
    /// % of constructs that repeat an earlier one of the same rule, token by token
    echo: u32,
    seen: Vec<Seen>,
}

/// A finished construct: rule, tokens, nesting, tree.
struct Seen {
    rule: usize,
    toks: (usize, usize),
    depth: u32,
    attr_depth: u32,
    tree: T,
}

const NAMES: &[&str] = &["a", "b", "Foo", "x", "Window", "T1", "fooBar", "Node", "y2", "Q", "event", "HTMLElement"];

/// Names that mean something to users of WebIDL, and nothing to its grammar.
const LOADED: &[&str] = &[
    "toString", "toJSON", "length", "name", "prototype", "item", "Exposed", "Constructor", "NamedConstructor", "Clamp", "EnforceRange", "AllowShared", "LegacyNullToEmptyString", "TreatNullAs", "EmptyString",
    "Worker", "Global", "SameObject", "Default", "Unscopable", "CEReactions", "HTMLConstructor", "PutForwards", "Replaceable", "NewObject", "SecureContext", "void", "bigint", "ObservableArray", "DOMException",
    "EventTarget", "EventHandler", "Object", "String", "Number", "Function", "Date", "Map", "Set", "Symbol", "iterator", "keys", "values", "entries", "forEach", "get", "set", "has", "delete", "clear", "size", "add", "T", "K", "V",
    "async_iterable", "self", "this", "type", "default", "class", "function", "in", "of", "arguments", "eval", "_constructor", "_toString", "serializer", "exception", "module", "Infinity1", "NaN_", "e1", "x1", "E", "X", "e", "LenientSetter", "NoInterfaceObject", "Array", "BigInt64Array", "SharedArrayBuffer",
];

pub fn safe_word(w: &str) -> bool {
    !KEYWORDS.contains(&w)
}

/// A word near a keyword: longer, shorter, other case, glued to another one.
pub fn kwish_word(s: &mut Src) -> String {
    let k = *s.pick(KEYWORDS);
    let w = match s.below(12) {
        0 => format!("{}_", k),
        1 => format!("{}-", k),
        2 => format!("{}{}", k, s.below(10)),
        3 => format!("{}{}", k, s.pick(&["x", "Z", "s", "Map", "e"])),
        4 => format!("{}_{}", k, s.pick(NAMES)),
        5 => format!("{}-{}", k, s.pick(NAMES)),
        6 => format!("{}{}", k, s.pick(KEYWORDS)),
        7 => {
            let mut c: Vec<char> = k.chars().collect();
            let i = s.below(c.len() as u32) as usize;
            c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() };
            c.into_iter().collect()
        }
        8 => if s.pct(50) { k.to_ascii_uppercase() } else { k.to_ascii_lowercase() },
        9 => k[..k.len() - 1].to_string(),
        10 => format!("{}{}", s.pick(&["x", "A", "un", "T_"]), k),
        _ => format!("{}-{}", k, s.pick(KEYWORDS)),
    };
    if w.is_empty() || !safe_word(&w) {
        format!("{}_", k)
    } else {
        w
    }
}

pub fn weird_word(s: &mut Src) -> String {
    const TAIL: &[u8] = b"abzAZ0129__--mQ";
    let mut w = String::new();
    w.push(*s.pick(&['a', 'Z', 'q', 'A', 'z', 'M']));
    let n = 1 + s.count(3, 12);
    for _ in 0..n {
        w.push(*s.pick(TAIL) as char);
    }
    w
}

pub fn digits(s: &mut Src, set: &[u8], min: u32, n: u32) -> String {
    (0..n.max(min)).map(|_| *s.pick(set) as char).collect()
}

const DEC: &[u8] = b"0123456789";
const HEXD: &[u8] = b"0123456789abcdefABCDEFeE";

impl<'s> Gen<'s> {
    pub fn new(s: &'s mut Src, p: &Profile) -> Gen<'s> {
        let big = if s.permille(p.big) {
            let d = *s.pick(&[Dim::List, Dim::IdentLen, Dim::StrLen, Dim::Digits, Dim::TypeDepth, Dim::List]);
            let m = p.big_max;
            let m = if d == Dim::TypeDepth { 100 } else { m };
            Some((d, s.log(m)))
        } else {
            None
        };
        let echo = if big.is_none() && s.pct(8) { 10 + s.below(30) } else { 0 };
        Gen {
            s,
            p: p.clone(),
            toks: vec![],
            g: grammar(),
            depth: 0,
            attr_depth: 0,
            no_str_key: false,
            no_type_attr: false,
            big,
            ambiguous: false,
            lower: 0,
            echo,
            seen: vec![],
        }
    }
    fn take_big(&mut self, d: Dim) -> Option<u32> {
        match self.big {
            Some((x, n)) if x == d => {
                self.big = None;
                Some(n)
            }
            _ => None,
        }
    }
    fn push(&mut self, t: &str) {
        self.toks.push(Tk::new(t));
    }

    /// A word usable as a name; returns its source form.
    pub fn ident_text(&mut self) -> String {
        if let Some(n) = self.take_big(Dim::IdentLen) {
            let mut w = weird_word(self.s);
            w.push_str("_x");
            return w.chars().cycle().take(n.max(3) as usize).collect();
        }
        let r = self.s.below(100);
        let (k, w, q) = (self.p.kwish, self.p.weird, self.p.keyword);
        let r = 99 - r; // small choices: plain names
        if r < q {
            self.ambiguous = true;
            return self.s.pick(KEYWORDS).to_string();
        }
        if r < q + k {
            return kwish_word(self.s);
        }
        if r < q + k + w {
            return match self.s.below(4) {
                0 => weird_word(self.s),
                1 => format!("_{}", self.s.pick(KEYWORDS)),
                2 => format!("_{}", weird_word(self.s)),
                _ => format!("_{}", self.s.pick(NAMES)),
            };
        }
        if r < q + k + w + 8 {
            if self.s.pct(30) && !dict().names.is_empty() {
                return self.s.pick(&dict().names).clone();
            }
            return self.s.pick(LOADED).to_string();
        }
        self.s.pick(NAMES).to_string()
    }
    fn ident(&mut self) -> T {
        let w = self.ident_text();
        self.push(&w);
        leaf(w.strip_prefix('_').unwrap_or(&w))
    }
    fn ndigits(&mut self) -> u32 {
        if let Some(n) = self.take_big(Dim::Digits) {
            n
        } else {
            self.s.count(2, 30)
        }
    }
    pub fn dec(&mut self) -> String {
        let m = if self.s.pct(30) { "-" } else { "" };
        if self.s.pct(3) && !dict().sizes.is_empty() {
            return format!("{}{}", m, self.s.pick(&dict().sizes));
        }
        if self.s.pct(12) {
            return format!("{}{}", m, self.s.pick(&["1", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "10", "100", "1000000"]));
        }
        let d = *self.s.pick(b"123456789") as char;
        let n = self.ndigits();
        format!("{}{}{}", m, d, digits(self.s, DEC, 0, n))
    }
    pub fn hex(&mut self) -> String {
        let m = if self.s.pct(30) { "-" } else { "" };
        let x = if self.s.pct(40) { "X" } else { "x" };
        if self.s.pct(12) {
            return format!("{}0{}{}", m, x, self.s.pick(&["0", "00", "7F", "80", "ff", "FFFF", "10000", "7fffffff", "80000000", "FFFFFFFF", "100000000", "7FFFFFFFFFFFFFFF", "ffffffffffffffff", "10000000000000000", "e", "E1", "0e1", "dead", "BEEF"]));
        }
        let n = self.ndigits();
        format!("{}0{}{}", m, x, digits(self.s, HEXD, 1, n))
    }
    pub fn oct(&mut self) -> String {
        let m = if self.s.pct(30) { "-" } else { "" };
        let n = self.ndigits();
        format!("{}0{}", m, digits(self.s, b"01234567", 0, n))
    }
    pub fn float(&mut self) -> String {
        let m = if self.s.pct(30) { "-" } else { "" };
        let n = self.ndigits();
        let a = digits(self.s, DEC, 0, n);
        let k = self.s.count(2, 8);
        let b = digits(self.s, DEC, 0, k);
        let exp = |s: &mut Src| {
            let e = *s.pick(&["e", "E"]);
            let g = *s.pick(&["", "+", "-"]);
            let k = s.count(2, 8);
            format!("{}{}{}", e, g, digits(s, DEC, 1, k))
        };
        match self.s.below(3) {
            0 => {
                let a = if a.is_empty() && b.is_empty() { "0".to_string() } else { a };
                format!("{}{}.{}", m, a, b)
            }
            1 => {
                let a = if a.is_empty() && b.is_empty() { "1".to_string() } else { a };
                format!("{}{}.{}{}", m, a, b, exp(self.s))
            }
            _ => {
                let a = if a.is_empty() { "3".to_string() } else { a };
                format!("{}{}{}", m, a, exp(self.s))
            }
        }
    }
    pub fn string(&mut self) -> String {
        if let Some(n) = self.take_big(Dim::StrLen) {
            let c: Vec<char> = nasty_text(self.s, 6, &['"']).chars().chain("ab".chars()).collect();
            return format!("\"{}\"", c.iter().cycle().take(n as usize).collect::<String>());
        }
        if self.s.pct(self.p.nasty_str) {
            return format!("\"{}\"", nasty_text(self.s, 5, &['"']));
        }
        if self.s.pct(12) && !dict().words.is_empty() {
            return format!("\"{}\"", self.s.pick(&dict().words).replace('"', ""));
        }
        format!("\"{}\"", self.s.pick(&["", "a", "one two", "x-y", "UTF-8", " ", "A", "0", "null", "true", "long", "interface", "\u{e9}", "a,b", "a;", "}", "0x1", "//", "a b ", "name"]))
    }

    fn weight(&self, label: &'static str) -> u32 {
        if let Some((_, w)) = self.p.weights.iter().find(|(l, _)| *l == label) {
            return *w;
        }
        match label {
            "NonAnyType::Identifier" | "NonAnyType::Integer" => 6,
            "NonAnyType::Sequence" | "NonAnyType::RecordType" | "NonAnyType::FloatingPoint" => 3,
            "NonAnyType::Promise" | "NonAnyType::FrozenArrayType" => 2,
            "Type::Single" => 5,
            "SingleType::NonAny" => 12,
            "UnionMemberType::Single" => 4,
            "ReturnType::Type" => 3,
            "InterfaceMember::Attribute" | "InterfaceMember::Operation" | "MixinMember::Operation" => 3,
            "Definition::Interface" => 3,
            "Argument::Single" => 3,
            "ExtendedAttribute::NoArgs" => 2,
            _ => 1,
        }
    }

    pub fn rule(&mut self, name: &'static str) -> T {
        let i = self.g.index[name];
        self.e(&E::R(i))
    }

    pub fn e(&mut self, e: &E) -> T {
        match e {
            E::K(k) => {
                self.push(k);
                leaf(k)
            }
            E::Ident => self.ident(),
            E::Str => {
                let t = self.string();
                self.push(&t);
                leaf(&t)
            }
            E::Dec | E::Hex | E::Oct | E::Float => {
                let t = match e {
                    E::Dec => self.dec(),
                    E::Hex => self.hex(),
                    E::Oct => self.oct(),
                    _ => self.float(),
                };
                self.push(&t);
                leaf(&t)
            }
            E::Bool => {
                let k = *self.s.pick(&["true", "false"]);
                self.push(k);
                leaf(k)
            }
            E::R(r) => self.rule_ix(*r),
            E::Opt(x) => {
                let p = self.opt_pct(x);
                if self.s.pct(p) {
                    self.e(x)
                } else {
                    none()
                }
            }
            E::OptIf(..) => unreachable!(),
            E::Many(x) => {
                let v = self.items(x, None, 0);
                list(None, v)
            }
            E::Sep(x, s) => {
                let v = self.items(x, Some(s), 0);
                list(Some(s), v)
            }
            E::Sep1(x, s) => {
                let v = self.items(x, Some(s), 1);
                if self.s.pct(25) {
                    self.push(s);
                }
                list(Some(s), v)
            }
            E::Seq(n, v) => {
                let mut kids: Vec<T> = vec![];
                for (i, x) in v.iter().enumerate() {
                    if let E::OptIf(k, d) = x {
                        let present = *kids[*k] != Tree::None;
                        if present && self.s.pct(60) {
                            let t = self.e(d);
                            kids.push(t);
                        } else {
                            kids.push(none());
                        }
                        continue;
                    }
                    // `[A] T x`: the list belongs to the argument, so a list of the type's own
                    // needs `optional` or a list of the argument in front of it
                    if *n == "SingleArgument" && i == 2 && *kids[0] == Tree::None && *kids[1] == Tree::None {
                        self.no_type_attr = true;
                    }
                    let t = self.e(x);
                    kids.push(t);
                }
                node(n, kids)
            }
            E::Alt(v) => {
                let deep = self.depth >= self.p.type_depth || self.toks.len() > self.p.budget;
                let strk = std::mem::take(&mut self.no_str_key);
                let w: Vec<u32> = v
                    .iter()
                    .map(|(l, _)| {
                        if deep
                            && matches!(
                                *l,
                                "NonAnyType::Promise"
                                    | "NonAnyType::Sequence"
                                    | "NonAnyType::FrozenArrayType"
                                    | "NonAnyType::RecordType"
                                    | "Type::Union"
                                    | "UnionMemberType::Union"
                            )
                        {
                            return 0;
                        }
                        if strk && matches!(*l, "NonAnyType::ByteString" | "NonAnyType::DOMString" | "NonAnyType::USVString") {
                            return 0;
                        }
                        self.weight(l)
                    })
                    .collect();
                let i = self.s.weighted(&w);
                let (l, x) = &v[i];
                if *l == "RecordKeyType::NonAny" {
                    self.no_str_key = true;
                }
                let t = self.e(x);
                self.no_str_key = false;
                node(l, vec![t])
            }
        }
    }

    fn is_rule(&self, e: &E, name: &str) -> bool {
        matches!(e, E::R(i) if self.g.names[*i] == name)
    }

    fn opt_pct(&mut self, x: &E) -> u32 {
        if self.is_rule(x, "ExtendedAttributeList") {
            if std::mem::take(&mut self.no_type_attr) {
                return 0;
            }
            return match self.attr_depth {
                0 => self.p.attr,
                1 => self.p.attr / 3,
                _ => 0,
            };
        }
        if matches!(x, E::K("?")) {
            return 30;
        }
        if self.is_rule(x, "Identifier") {
            return 80; // operation names
        }
        self.p.opt
    }

    fn rule_ix(&mut self, r: usize) -> T {
        let name = self.g.names[r];
        let is_type = matches!(name, "Type" | "NonAnyType" | "UnionMemberType");
        if name == "Type" && !matches!(self.big, None) {
            if let Some(n) = self.take_big(Dim::TypeDepth) {
                return self.spine(n);
            }
        }
        let attr = name == "ExtendedAttributeList";
        if self.echo > 0 && !self.no_str_key && !self.no_type_attr && self.toks.len() <= self.p.budget && self.s.pct(self.echo) {
            let fit: Vec<usize> = (0..self.seen.len()).filter(|i| self.seen[*i].rule == r && self.seen[*i].depth >= self.depth && self.seen[*i].attr_depth >= self.attr_depth).collect();
            if !fit.is_empty() {
                let i = fit[self.s.below(fit.len() as u32) as usize];
                let (a, b) = self.seen[i].toks;
                if b - a <= 60 {
                    self.toks.extend_from_within(a..b);
                    return self.seen[i].tree.clone();
                }
            }
        }
        let start = (self.toks.len(), self.depth, self.attr_depth);
        if is_type {
            self.depth += 1;
        }
        if attr {
            self.attr_depth += 1;
        }
        if name != "AttributedType" && name != "ExtendedAttributeList" {
            self.no_type_attr = false;
        }
        let g = self.g;
        let t = self.e(&g.rules[r]);
        if is_type {
            self.depth -= 1;
        }
        if attr {
            self.attr_depth -= 1;
        }
        if self.echo > 0 {
            self.seen.push(Seen { rule: r, toks: (start.0, self.toks.len()), depth: start.1, attr_depth: start.2, tree: t.clone() });
        }
        t
    }

    /// A type nested `n` deep, out of a short cycle of wrappers.
    fn spine(&mut self, n: u32) -> T {
        let k = 1 + self.s.below(3);
        let cyc: Vec<u32> = (0..k).map(|_| self.s.below(8)).collect();
        let mut close: Vec<(&'static str, Vec<T>)> = vec![];
        // outside in: emit openers, remember how to build the tree
        for i in 0..n {
            let w = cyc[(i % k) as usize];
            match w {
                0 | 1 | 2 | 3 => {
                    let kw = ["sequence", "FrozenArray", "Promise", "record"][w as usize];
                    self.push(kw);
                    self.push("<");
                    if w == 3 {
                        self.push("DOMString");
                        self.push(",");
                    }
                    close.push((kw, vec![]));
                }
                4 | 5 => {
                    self.push("(");
                    close.push((if w == 4 { "union" } else { "union?" }, vec![]));
                }
                6 => {
                    self.push("sequence");
                    self.push("<");
                    close.push(("sequence?", vec![]));
                }
                _ => {
                    self.push("FrozenArray");
                    self.push("<");
                    close.push(("FrozenArray?", vec![]));
                }
            }
        }
        self.push("long");
        let g = |x: T| node("Generics", vec![leaf("<"), x, leaf(">")]);
        let may = |x: T, q: bool| node("MayBeNull", vec![x, if q { leaf("?") } else { none() }]);
        let single = |l: &'static str, x: T| {
            node("Type::Single", vec![node("SingleType::NonAny", vec![node(l, vec![x])])])
        };
        let mut non_any: T = node(
            "NonAnyType::Integer",
            vec![may(node("IntegerType::Long", vec![node("LongType", vec![none(), leaf("long")])]), false)],
        );
        let mut ty: T = node("Type::Single", vec![node("SingleType::NonAny", vec![non_any.clone()])]);
        let mut is_union = false;
        let mut union_tree: Option<T> = None;
        for (w, _) in close.into_iter().rev() {
            match w {
                "sequence" | "sequence?" | "FrozenArray" | "FrozenArray?" => {
                    self.push(">");
                    let q = w.ends_with('?');
                    if q {
                        self.push("?");
                    }
                    let seq = w.starts_with("seq");
                    let (l, n, kw) = if seq {
                        ("NonAnyType::Sequence", "SequenceType", "sequence")
                    } else {
                        ("NonAnyType::FrozenArrayType", "FrozenArrayType", "FrozenArray")
                    };
                    let x = may(node(n, vec![leaf(kw), g(ty)]), q);
                    non_any = node(l, vec![x.clone()]);
                    ty = single(l, x);
                    is_union = false;
                }
                "Promise" => {
                    self.push(">");
                    let x = node("PromiseType", vec![leaf("Promise"), g(node("ReturnType::Type", vec![ty]))]);
                    non_any = node("NonAnyType::Promise", vec![x.clone()]);
                    ty = single("NonAnyType::Promise", x);
                    is_union = false;
                }
                "record" => {
                    self.push(">");
                    let tup = node(
                        "tuple",
                        vec![node("RecordKeyType::DOM", vec![leaf("DOMString")]), leaf(","), ty],
                    );
                    let x = may(node("RecordType", vec![leaf("record"), g(tup)]), false);
                    non_any = node("NonAnyType::RecordType", vec![x.clone()]);
                    ty = single("NonAnyType::RecordType", x);
                    is_union = false;
                }
                _ => {
                    let member = if is_union {
                        node("UnionMemberType::Union", vec![union_tree.clone().unwrap()])
                    } else {
                        node(
                            "UnionMemberType::Single",
                            vec![node("AttributedNonAnyType", vec![none(), non_any.clone()])],
                        )
                    };
                    self.push(")");
                    let q = w == "union?";
                    if q {
                        self.push("?");
                    }
                    let u = may(
                        node("Parenthesized", vec![leaf("("), list(Some("or"), vec![member]), leaf(")")]),
                        q,
                    );
                    union_tree = Some(u.clone());
                    ty = node("Type::Union", vec![u]);
                    is_union = true;
                }
            }
        }
        ty
    }

    fn items(&mut self, x: &E, sep: Option<&'static str>, min: u32) -> Vec<T> {
        let mut v: Vec<T> = vec![];
        // one huge list: a cycle of a few generated elements
        if let Some(n) = self.take_big(Dim::List) {
            let k = 1 + self.s.below(3);
            let mut parts: Vec<(T, Vec<Tk>)> = vec![];
            for _ in 0..k {
                let at = self.toks.len();
                self.lower += 1;
                let t = self.e(x);
                self.lower -= 1;
                let toks = self.toks.split_off(at);
                parts.push((t, toks));
            }
            // huge in items, not in items times their size
            let size: usize = parts.iter().map(|p| p.1.len()).sum();
            let n = n.min(1 + 24_000 * k / (size as u32 + k));
            for i in 0..n.max(min) {
                if i > 0 {
                    if let Some(s) = sep {
                        self.push(s);
                    }
                }
                let (t, toks) = &parts[(i % k) as usize];
                v.push(t.clone());
                self.toks.extend(toks.iter().cloned());
            }
            return v;
        }
        let mut last: Option<(usize, usize)> = None;
        loop {
            let n = v.len() as u32;
            if n >= min {
                if self.toks.len() > self.p.budget || n >= 40 {
                    break;
                }
                if self.s.below(self.p.mean + 1) == 0 {
                    break;
                }
            }
            if n > 0 {
                if let Some(s) = sep {
                    self.push(s);
                }
            }
            if let Some((a, b)) = last {
                if self.s.pct(self.p.dup) {
                    let copy: Vec<Tk> = self.toks[a..b].to_vec();
                    let at = self.toks.len();
                    self.toks.extend(copy);
                    v.push(v[v.len() - 1].clone());
                    last = Some((at, self.toks.len()));
                    continue;
                }
            }
            let at = self.toks.len();
            let t = self.e(x);
            v.push(t);
            last = Some((at, self.toks.len()));
        }
        v
    }
}

/// Derives `rule`; gives the tokens, the tree they stand for, and whether a keyword was used as a name.
pub fn derive(s: &mut Src, p: &Profile, rule: &'static str) -> (Vec<Tk>, T, bool) {
    let mut g = Gen::new(s, p);
    let t = g.rule(rule);
    let a = g.ambiguous;
    (g.toks, t, a)
}

// ---------------------------------------------------------------- text

/// Short pieces that trip up scanners.
pub const NASTY: &[&str] = &[
    "a", " ", "x y", "\"", "'", "*", "**", "/", "//", "/*", "*/", "é", "漢字", "🦀", "\u{2028}", "\u{feff}", "\u{a0}",
    "\r", "\r\n", "\n", "\t", "\\", "\\\"", "\0", "\u{b}", "\u{c}", "\u{85}", "\u{7f}", ";", "}", "{", "interface A {};",
    "0", "-", "_", "e\u{301}", "\u{10ffff}", "ß", "Ⅷ", "<!--", "#", "[]", ",", "\u{1}", "or", "%s", "\u{200b}",
    "İ", "K", "ſ", "٣", "ﬁ",
];

pub fn nasty_text(s: &mut Src, mean: u32, without: &[char]) -> String {
    let n = s.count(mean, 40);
    let mut t = String::new();
    for _ in 0..n {
        if s.pct(6) && !dict().words.is_empty() {
            t.push_str(s.pick(&dict().words));
        } else {
            t.push_str(s.pick(NASTY));
        }
    }
    t.retain(|c| !without.contains(&c));
    t
}

/// One piece of whitespace or comment.
pub fn trivia_piece(s: &mut Src) -> String {
    match s.below(12) {
        0 => " ".into(),
        1 => "\n".into(),
        2 => "\t".into(),
        3 => "\r".into(),
        4 => "\r\n".into(),
        5 => s.pick(&["  ", "\n\n", " \t ", "\n\r", "\t\t", " \n "]).to_string(),
        6 | 7 => format!("//{}\n", nasty_text(s, 2, &['\n'])),
        8 => s.pick(&["/**/", "/***/", "/*/*/", "/****/", "/* * */", "/*//*/", "/*\n*/", "//\n", "///\n", "//*\n", "//*/\n"]).to_string(),
        _ => {
            let mut c = nasty_text(s, 2, &[]);
            // the tail must not close the comment early either: `*` + `/`
            while let Some(i) = c.find("*/") {
                c.replace_range(i + 1..i + 2, "!");
            }
            format!("/*{}*/", c)
        }
    }
}

pub fn trivia(s: &mut Src, mean: u32) -> String {
    let n = s.count(mean, 12);
    let mut t: String = (0..n).map(|_| trivia_piece(s)).collect();
    if s.permille(1) {
        let n = s.log(1 << 16) as usize;
        let u = match s.below(4) {
            0 => " ".repeat(n),
            1 => "\r\n".repeat(n),
            2 => format!("/*{}*/", "*".repeat(n)),
            _ => format!("//{}\n", "/".repeat(n)),
        };
        t.push_str(&u);
    }
    t
}

/// Must the two tokens be kept apart?
pub fn apart(a: &str, b: &str) -> bool {
    let (x, y) = match (a.bytes().last(), b.bytes().next()) {
        (Some(x), Some(y)) => (x, y),
        _ => return false,
    };
    let glue = |c: u8| is_word_byte(c) || c == b'.' || c >= 0x80;
    let word_or_number = |c: u8| is_word_byte(c);
    (word_or_number(x) && glue(y)) || (x == b'.' && (y == b'.' || y.is_ascii_digit())) || (x == b'/' && (y == b'/' || y == b'*'))
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ws {
    /// one space between tokens
    Canon,
    /// only where needed
    Min,
    /// anything anywhere
    Rand,
    /// usual layout, sometimes with comments
    Light,
}

/// `word...` and `...word` need no space: the words of the grammar never hold dots.
fn need(a: &str, b: &str) -> bool {
    if b == "..." && a.bytes().next().map_or(false, |c| c.is_ascii_alphabetic() || c == b'_') {
        return false;
    }
    apart(a, b)
}

pub fn render(s: &mut Src, toks: &[Tk], ws: Ws) -> String {
    let mut o = String::new();
    if ws == Ws::Rand {
        o.push_str(&trivia(s, 1));
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let must = need(&toks[i - 1].text, &t.text);
            match ws {
                Ws::Canon => o.push(' '),
                Ws::Min => {
                    if must {
                        o.push(' ');
                    }
                }
                Ws::Light => {
                    if must || s.below(4) > 0 {
                        o.push_str(s.pick(&[" ", "\n", "  ", "\t"]));
                    }
                    if s.pct(3) {
                        o.push_str(&trivia_piece(s));
                    }
                }
                Ws::Rand => {
                    let mut x = trivia(s, 1);
                    if must && x.is_empty() {
                        x.push_str(s.pick(&[" ", "\n", "\t", "\r", "/**/", "//\n"]));
                    }
                    o.push_str(&x);
                }
            }
        }
        o.push_str(&t.text);
    }
    if ws == Ws::Rand {
        o.push_str(&trivia(s, 1));
        if s.pct(15) {
            // a line comment that the end of the text ends
            o.push_str(&format!("//{}", nasty_text(s, 2, &['\n'])));
        }
    }
    o
}

// ---------------------------------------------------------------- edits

pub const SOUP: &[&str] = &[
    "a", "Foo", "_x", "\"s\"", "1", "0x1F", "-07", "1.5", "-.5e3", "-Infinity", "true", "null", "\"\"", "[]", "{}", "8", "__a", "-a", "0x", "08",
    "1.e", "é", "//c\n", "/*c*/", "..", "-", "/", "#", "'", "void", "bigint", "exception", "Interface", "LONG", "\u{a0}", "\u{c}",
];

pub fn vocab(s: &mut Src) -> String {
    match s.below(10) {
        0..=2 => s.pick(SYMBOLS).to_string(),
        3..=6 => s.pick(KEYWORDS).to_string(),
        7 => kwish_word(s),
        8 if s.pct(50) && !dict().words.is_empty() => s.pick(&dict().words).clone(),
        _ => s.pick(SOUP).to_string(),
    }
}

/// Small constructs that fit in some places and not in others.
pub const SNIPPETS: &[&str] = &[
    ": B", ": B , C", ": B : C", "= 1", "= null", "= [ ]", "= { }", "= \"s\"", "= a", "= ( A , B )", "= A ( )", "= A ( long a )", "= *", "( )", "( long a )", "( A , B )", "( A or B )", "( A or B ) ?", "[ ]", "[ A ]",
    "[ A , ]", "[ A ] [ B ]", "[ A = B ]", "[ A ( long a ) ]", "{ }", "{ } ;", "< long >", "< long , long >", "< >", "< long > ?", "? ?", ", a", ", long a", ", \"s\"", ", ,", "or A", "or any", "or or", "optional long a",
    "optional long a = 1", "optional long ... a", "long ... a", "long a = 1", "required long a ;", "required long a = 1 ;", "long a ;", "long a = 1 ;", "attribute long a ;", "readonly attribute long a ;", "static attribute long a ;", "inherit attribute long a ;",
    "inherit readonly attribute long a ;", "stringifier attribute long a ;", "stringifier ;", "stringifier long f ( ) ;", "static long f ( ) ;", "getter long ( long a ) ;", "long f ( ) ;", "undefined ( ) ;", "constructor ( ) ;", "constructor ( ) = 1 ;",
    "const long X = 1 ;", "const long ? X = 1 ;", "const any X = 1 ;", "const long X = \"s\" ;", "iterable < long > ;", "readonly iterable < long > ;", "async iterable < long > ( ) ;", "maplike < long > ;", "maplike < A , B > ;", "readonly setlike < A > ;",
    "setlike < A , B > ;", "static const long X = 1 ;", "serializer ;", "unsigned", "unsigned long", "long long long", "unsigned unsigned", "unrestricted float", "any ?", "undefined ?", "Promise < any > ?", "Promise < A > ?", "record < long , A >", "record < A >", "sequence",
    "sequence < A , B >", "interface I { } ;", "partial interface I { } ;", "interface mixin M { } ;", "interface mixin M : N { } ;", "partial interface I : J { } ;", "partial dictionary D : E { } ;", "namespace N : M { } ;", "partial enum E { \"a\" } ;", "enum E { } ;",
    "enum E { \"a\" , , } ;", "enum E { a } ;", "enum E { , \"a\" } ;", "callback interface mixin M { } ;", "partial callback interface I { } ;", "callback C = long ;", "callback C ( ) ;", "callback = long ( ) ;", "dictionary D { attribute long a ; } ;", "typedef long ;",
    "typedef any ? a ;", "typedef ; ", "a includes ;", "a includes b c ;", "a , b includes c ;", "a implements b , c ;", "interface { } ;", "interface A B { } ;", "exception E { } ;", "module M { } ;", "; ;", "} ;", "} }", "-", "- 1", "+ 1", "1 . 5", "- Infinity", "0 x 1", ". . .", ". .",
    "'a'", "'a' , 'b'", "<!-- x -->", "<!--", "-->", "# x", "#pragma x", "#include", "`a`", "@A", "@ A", "$x", "a.b", "a : : b", "::", "A | B", "|", "&", "A & B", "[ ] a", "long [ ] a", "[ 5 ]", "? long", "a => b", "=>", "0b1", "1_000", "0o7", "1n", "0xg", "+1", "1f", "1.5f", "\\u0061", "&lt;", "%", "^", "!", "~", "\\", "/", "1 + 2", "( 1 )", "- 5", "in long a", "out long a", "raises ( E )", "getraises ( E )", "setraises ( E )", "omittable getter any ( )", "creator any ( )", "caller any ( )", "serializer = { a }", "serializer ;", "stringifier = a ;", "exception E { } ;", "module M { } ;", "valuetype A B ;", "native A ;", "sequence < long , 5 >", "string < 5 >", "typedef long a , b ;", "const long A = 1 + 2 ;", "interface A : B , C { } ;", "enum E { A , B } ;", "enum E { 1 } ;", "enum E : long { \"a\" } ;", "callback C = long ( long ) ;", "callback C = ( long a ) ;", "ObservableArray < long >", "bigint ?", "async sequence < long >", "async_sequence < long >", "Float16Array", "async_iterable < long > ;", "asserts", "undefined or", "undefined ?", "[ A = 1 ]", "[ A = 1.5 ]", "[ A = ( 1 , 2 ) ]", "[ A = ( \"a\" , \"b\" ) ]", "[ A = [ B ] ]", "[ A : B ]", "[ A ; B ]", "[ A B ]", "[ = A ]", "[ A = B , ]", "[ , A ]", "[ A ( a ) ]", "[ A ( long a , ) ]", "[ A = * , ]", "[ * ]", "[ \"a\" ]", "[ A = \"a\" \"b\" ]", "inherit undefined f ( ) ;", "inherit static attribute long a ;", "readonly undefined f ( ) ;", "static constructor ( ) ;", "async undefined f ( ) ;", "constructor a ( ) ;", "readonly const long A = 1 ;", "attribute optional long a ;", "optional attribute long a ;", "required attribute long a ;", "attribute long ;", "attribute long ... a ;", "attribute long a , b ;", "attribute long a ( ) ;", "attribute long a = 5 ;", "getter setter any ( ) ;", "getter getter any ( ) ;", "setter getter any f ( ) ;", "static static any f ( ) ;", "stringifier static any f ( ) ;", "readonly readonly attribute any a ;", "static inherit attribute any a ;", "getter attribute any a ;", "getter ;", "static ;", "inherit ;", "readonly ;", "iterable < > ;", "iterable < A , B , C > ;", "iterable ;", "maplike < A , B , C > ;", "maplike ;", "setlike < > ;", "setlike ;", "static maplike < A , B > ;", "async maplike < A , B > ;", "iterable < A > a ;", "iterable < A > ( ) ;", "required optional long a ;", "optional long a ;", "long a , b ;", "long a ? ;", "required a ;", "long required a ;", "long ... a ;", "interface I { } ", "interface I { ; } ;", "interface I { } ; ;", "dictionary D { , } ;", "dictionary D { long a , } ;", "namespace N { attribute long a ; } ;", "namespace N { constructor ( ) ; } ;", "interface mixin M { constructor ( ) ; } ;", "interface mixin M { static any f ( ) ; } ;", "interface mixin M { inherit attribute any a ; } ;", "interface mixin M { getter any ( ) ; } ;", "interface mixin M { iterable < A > ; } ;", "mixin M { } ;", "mixin interface M { } ;", "partial mixin M { } ;", "interface partial I { } ;", "partial partial interface I { } ;", "partial typedef long a ;", "partial callback C = any ( ) ;", "partial A includes B ;", "callback interface { } ;", "callback mixin M { } ;", "callback C = any ( ) { } ;", "typedef long a { } ;", "includes B ;", "A includes ;", "A includes B : C ;", "A includes B , C ;", "A implements ;", "A extends B ;", "A : B ;", "A = B ;", "optional any a = ", "optional any a = = 1", "optional any a 1", "optional optional any a", "any a ...", "... a", "any ... ... a", "any ... a = 1", "any .. a", "any . . . a", "any ", "any a any b", "any a ; any b", ", ; ,",
];

/// One edit of a token list within `lo..hi`.
pub fn mutate_tokens(s: &mut Src, t: &mut Vec<Tk>, lo: usize, hi: usize) {
    let hi = hi.min(t.len());
    if lo >= hi {
        let v = vocab(s);
        t.insert(lo.min(t.len()), Tk::new(&v));
        return;
    }
    let at = lo + s.below((hi - lo) as u32) as usize;
    match s.below(14) {
        12 => {
            let w = *s.pick(SNIPPETS);
            for (i, x) in w.split_whitespace().enumerate() {
                t.insert(at + i, Tk::new(x));
            }
        }
        13 => {
            // a run of another document
            let d = *s.pick(crate::templates::DOCS);
            let u = crate::props::toks_of(d);
            let from = s.below(u.len() as u32) as usize;
            let n = 1 + s.below(6) as usize;
            for (i, x) in u[from..(from + n).min(u.len())].iter().enumerate() {
                t.insert(at + i, x.clone());
            }
        }
        0 | 1 => {
            t.remove(at);
        }
        2 => {
            let x = t[at].clone();
            t.insert(at, x);
        }
        3 => {
            if at + 1 < hi {
                t.swap(at, at + 1);
            } else {
                t.remove(at);
            }
        }
        4 | 5 => t[at] = Tk::new(&vocab(s)),
        6 | 7 => {
            let v = vocab(s);
            t.insert(at, Tk::new(&v));
        }
        8 => {
            // other letter case
            let w = t[at].text.clone();
            t[at].text = if s.pct(50) { w.to_uppercase() } else { w.to_lowercase() };
            if t[at].text == w {
                let mut c: Vec<char> = w.chars().collect();
                if let Some(f) = c.first_mut() {
                    *f = if f.is_ascii_lowercase() { f.to_ascii_uppercase() } else { f.to_ascii_lowercase() };
                }
                t[at].text = c.into_iter().collect();
            }
        }
        9 => {
            // glue two tokens
            if at + 1 < hi {
                let b = t.remove(at + 1);
                t[at].text.push_str(s.pick(&["", "_", "-", "0", "."]));
                t[at].text.push_str(&b.text);
            }
        }
        10 => {
            // drop a run
            let n = 1 + s.below(4) as usize;
            let e = (at + n).min(hi);
            t.drain(at..e);
        }
        _ => {
            // move or copy a run elsewhere
            let n = 1 + s.below(4) as usize;
            let e = (at + n).min(hi);
            let run: Vec<Tk> = t[at..e].to_vec();
            let to = lo + s.below((hi - lo) as u32) as usize;
            for (i, x) in run.into_iter().enumerate() {
                t.insert(to + i, x);
            }
        }
    }
}

/// One edit of a text at a character boundary.
pub fn mutate_text(s: &mut Src, t: &mut String) {
    let n = t.chars().count() as u32;
    let at = s.below(n + 1) as usize;
    let ix = t.char_indices().nth(at).map_or(t.len(), |x| x.0);
    let next = |t: &String| t[ix..].chars().next().map_or(ix, |c| ix + c.len_utf8());
    match s.below(8) {
        0 | 1 => {
            let e = next(t);
            t.replace_range(ix..e, "");
        }
        2 | 3 => {
            let x = *s.pick(NASTY);
            t.insert_str(ix, x);
        }
        4 => {
            let e = next(t);
            let x = *s.pick(NASTY);
            t.replace_range(ix..e, x);
        }
        5 => t.truncate(ix),
        6 => {
            let e = next(t);
            let c = t[ix..e].to_string();
            t.insert_str(ix, &c);
        }
        _ => {
            let b = (s.below(128) as u8) as char;
            t.insert(ix, b);
        }
    }
}
