//! The properties: generator, oracle and enumerated part of each.

use crate::dict::dict;
use crate::engine::*;
use crate::entries::{self, Fun, Out};
use crate::gens::*;
use crate::grammar::Ref;
use crate::lex::{self, is_word_byte, lex, trivia_len, Kind, KEYWORDS, SYMBOLS};
use crate::templates::*;
use crate::tree::*;

pub mod basic;
pub mod history;
pub mod slots;
pub mod whole;

pub fn all() -> Vec<&'static Prop> {
    vec![
        &whole::C01,
        &slots::C02,
        &slots::C03,
        &slots::C04,
        &slots::C05,
        &slots::C06,
        &slots::C07,
        &whole::C08,
        &whole::C09,
        &whole::C10,
        &whole::C11,
        &whole::C12,
        &whole::C13,
        &history::C14,
        &history::C15,
        &history::C16,
        &basic::C17,
        &basic::C18,
        &history::C19,
    ]
}

// ---------------------------------------------------------------- shared oracles

/// Is the weedle result for a document the one the reference gives?
/// `both`: also judge texts that the reference refuses (they must not be accepted).
pub fn judge_document(s: &str, both: bool) -> Verdict {
    let mut r = Ref::new(s);
    let n = r.toks.len();
    match r.document() {
        Ok(t) => match entries::document(s) {
            Out::Ok { tree, .. } if tree == t => {
                pass(n > 4, if t.items().is_empty() { "empty document" } else { "accepted, same tree" })
            }
            o => Verdict::Fail(format!("expected: accepted: {}\n  actual: {}", t.show(900), o.show())),
        },
        Err((_, off)) => {
            if !both {
                return pass(false, "outside the grammar (not judged here)");
            }
            match entries::document(s) {
                Out::Ok { tree, .. } => Verdict::Fail(format!(
                    "expected: refused (the definition at byte {} is outside the grammar)\n  actual: accepted: {}",
                    off,
                    tree.show(900)
                )),
                _ => pass(n > 4, "refused, as it should be"),
            }
        }
    }
}

/// A public grammar type on a text: accepted or not, tree and unread rest as the reference says.
/// `opt.X`: the type X where it is optional; absent, it reads nothing.
pub fn judge_rule(name: &str, f: Fun, s: &str) -> Verdict {
    let mut r = Ref::new(s);
    if let Some(n) = name.strip_prefix("opt.") {
        let want = r.rule(n);
        let (t, rest) = want.as_ref().map_or((none(), 0), |w| (w.0.clone(), w.1));
        return match f(s) {
            Out::Ok { tree, rest: got } if tree == t && rest == got => pass(!s.is_empty(), if want.is_some() { "optional, present" } else { "optional, absent" }),
            o => Verdict::Fail(format!("optional {}: expected rest at {}: {}\n  actual: {}", n, rest, t.show(900), o.show())),
        };
    }
    match (r.rule(name), f(s)) {
        (Some((t, rest, used)), Out::Ok { tree, rest: got }) => {
            if tree != t {
                Verdict::Fail(format!("{}: expected {}\n  actual {}", name, t.show(900), tree.show(900)))
            } else if rest != got {
                Verdict::Fail(format!("{}: expected the rest {:?}\n  actual {:?}", name, cut(&s[rest..]), cut(&s[got..])))
            } else {
                pass(used > 0, if rest == s.len() { "whole text" } else { "with a rest" })
            }
        }
        (None, Out::Err { .. }) => pass(r.toks.len() > 2, "refused"),
        (None, o @ Out::Ok { .. }) => Verdict::Fail(format!("{}: expected: refused\n  actual: {}", name, o.show())),
        (Some((t, rest, _)), o) => Verdict::Fail(format!(
            "{}: expected: accepted up to {:?}: {}\n  actual: {}",
            name,
            cut(&s[rest..]),
            t.show(900),
            o.show()
        )),
        (None, o) => Verdict::Fail(format!("{}: expected: refused\n  actual: {}", name, o.show())),
    }
}

pub fn cut(s: &str) -> String {
    let mut n = s.len().min(60);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    if n < s.len() {
        format!("{}... ({} bytes)", &s[..n], s.len())
    } else {
        s.into()
    }
}

/// kinds `doc` and `rule:<Name>`
pub fn judge(c: &Case) -> Verdict {
    if let Some(n) = c.kind.strip_prefix("rule:") {
        return match entries::find(n) {
            Some(f) => judge_rule(n, f, &c.texts[0]),
            None => Verdict::Broken(format!("no entry {}", n)),
        };
    }
    judge_document(&c.texts[0], true)
}

/// The generator and the reference parser were written apart from each other; where they
/// disagree the check is wrong, and must not report anything about the code.
pub fn self_check(text: &str, rule: &str, tree: &T) {
    let mut r = Ref::new(text);
    match r.rule(rule) {
        Some((t, _, used)) if &t == tree && r.toks[used].kind == Kind::Eof => {}
        o => {
            eprintln!(
                "machinery contradicts itself: {} {:?}\n generator {}\n reference {}",
                rule,
                text,
                tree.show(3000),
                o.map_or("refused".into(), |o| o.0.show(3000))
            );
            std::process::exit(2);
        }
    }
}

pub fn any_ws(s: &mut Src) -> Ws {
    [Ws::Canon, Ws::Light, Ws::Min, Ws::Rand][s.weighted(&[3, 4, 2, 1])]
}

/// Derives `rule`, renders it, and checks the generator against the reference now and then.
pub fn derived_text(s: &mut Src, p: &Profile, rule: &'static str, ws: Ws) -> String {
    let (toks, tree, amb) = derive(s, p, rule);
    let text = render(s, &toks, ws);
    if !amb && text.len() % 8 == 0 && !toks.is_empty() {
        self_check(&text, rule, &tree);
    }
    text
}

pub fn toks_of(s: &str) -> Vec<Tk> {
    lex(s)
        .iter()
        .filter(|t| !matches!(t.kind, Kind::Eof | Kind::Invalid))
        .map(|t| Tk::new(&s[t.start..t.end]))
        .collect()
}

pub fn join(toks: &[Tk]) -> String {
    toks.iter().map(|t| t.text.as_str()).collect::<Vec<_>>().join(" ")
}

/// Enumeration split over the workers.
pub struct Shard<'x, 'y> {
    i: usize,
    shard: usize,
    shards: usize,
    sink: &'x mut Sink<'y>,
    pub live: bool,
}
impl<'x, 'y> Shard<'x, 'y> {
    pub fn new(shard: usize, shards: usize, sink: &'x mut Sink<'y>) -> Self {
        Shard { i: 0, shard, shards, sink, live: true }
    }
    pub fn go(&mut self, f: impl FnOnce() -> Case) -> bool {
        self.i += 1;
        if self.live && self.i % self.shards == self.shard {
            self.live = (self.sink)(f());
        }
        self.live
    }
    pub fn doc(&mut self, f: impl FnOnce() -> String) -> bool {
        self.go(|| Case::one("doc", f()))
    }
    /// all sequences of `min..=max` words, each given to `f` as indices
    pub fn sequences(&mut self, words: usize, min: usize, max: usize, mut f: impl FnMut(&mut Self, &[usize])) {
        for n in min..=max {
            let mut ix = vec![0; n];
            'next: loop {
                if !self.live {
                    return;
                }
                f(self, &ix);
                let mut k = n;
                loop {
                    if k == 0 {
                        break 'next;
                    }
                    k -= 1;
                    ix[k] += 1;
                    if ix[k] < words {
                        break;
                    }
                    ix[k] = 0;
                }
            }
        }
    }
    /// The tokens, between `pre` and `post`, with one of them long, one gap long, or one balanced run
    /// of up to four of them many times; the last also with the end missing.
    pub fn inflate(&mut self, kind: &str, pre: &str, toks: &[Tk], post: &str, big: bool) {
        const SIZES: &[usize] = &[41, 70, 131, 258, 520, 1030, 2100, 4110, 8500, 66_000];
        let sizes = &SIZES[..if big { SIZES.len() } else { SIZES.len() - 1 }];
        for i in 0..=toks.len() {
            if !self.live {
                return;
            }
            let (l, r) = (join(&toks[..i]), join(&toks[i..]));
            for (k, n) in sizes.iter().enumerate() {
                for how in 0..4 {
                    if !big && (how + k + i) % 2 == 1 {
                        continue;
                    }
                    self.go(|| {
                        let gap = match how {
                            0 => " ".repeat(*n),
                            1 => format!("/*{}{}*/", &"aaa"[..k % 3], "€".repeat(*n / 3 + 1)),
                            2 => format!("//{}{}\n", &"aaa"[..i % 3], "€".repeat(*n / 3 + 1)),
                            _ => "/**/\n".repeat(*n / 5 + 1),
                        };
                        Case::one(kind, format!("{} {}{}{} {}", pre, l, gap, r, post))
                    });
                }
            }
            if i == toks.len() {
                break;
            }
            let (l, r) = (l, join(&toks[i + 1..]));
            let t = &toks[i].text;
            let c = t.chars().next().unwrap_or(' ');
            for (k, n) in sizes.iter().enumerate() {
                let forms: Vec<String> = match c {
                    '"' => ["a", "é", "€", "//", "/*", "\n", " ", "\\"].iter().skip(k % 2).step_by(2).map(|x| format!("\"{}{}", &"bbb"[..k % 3], x.repeat(*n / x.len() + 1)) + t.get(1..).unwrap_or("\"")).collect(),
                    c if c.is_ascii_alphabetic() || c == '_' => vec![format!("{}{}", t, "x".repeat(*n)), format!("{}{}-", t, "9".repeat(*n)), format!("{}{}", t, "-_".repeat(*n / 2)), format!("{}{}", "Q".repeat(*n), t.trim_start_matches('_'))],
                    c if c.is_ascii_digit() || c == '-' || c == '.' && t.len() > 1 && t != "..." => vec![format!("{}{}", t, "0".repeat(*n)), format!("{}{}", t, "7".repeat(*n)), t.replacen(|c: char| c.is_ascii_digit(), &"3".repeat(*n), 1)],
                    _ => vec![],
                };
                for f in forms {
                    self.go(|| Case::one(kind, format!("{} {} {} {} {}", pre, l, f, r, post)));
                }
            }
            for j in i + 1..=toks.len().min(i + 5) {
                if !balanced(&toks[i..j]) {
                    continue;
                }
                let run = join(&toks[i..j]);
                for n in [17, 33, 66, 130, 260, 600, 2000] {
                    if n > 300 && !big {
                        break;
                    }
                    let t = || format!("{} {} {} {}", pre, join(&toks[..i]), format!("{} ", run).repeat(n), join(&toks[j..]));
                    self.go(|| Case::one(kind, format!("{} {}", t(), post)));
                    if n == 66 || n == 600 {
                        self.go(|| Case::one(kind, t().trim_end().to_string()));
                        self.go(|| {
                            let t = t();
                            let t = t.trim_end();
                            Case::one(kind, format!("{} {}", t.rsplit_once(' ').map_or("", |x| x.0), post))
                        });
                    }
                }
            }
        }
    }
    /// Single edits of the tokens (dropped, doubled, swapped, replaced, added), once in each dress.
    pub fn dressed_edits(&mut self, kind: &str, pre: &str, toks: &[Tk], post: &str, all: bool) {
        const WORDS: &[&str] = &["x", "a", "ab", "static", "long", "optional", "1", "\"s\"", "é", "_", "[ A ]", "( )", "??", "= 1", ",,", ";;", "==", "::", "? ?", "; ;"];
        let tail = busy_tail();
        for d in 0..DRESSES {
            if !self.live {
                return;
            }
            let (t, gap) = dress(toks, d);
            let (front, back) = match d {
                10 => ("", tail),
                11 => (tail, ""),
                _ => ("", ""),
            };
            let join = |v: &[&str]| format!("{}{} {} {}{}", front, pre, v.join(gap), post, back);
            let v: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
            self.go(|| Case::one(kind, join(&v)));
            for i in 0..=v.len() {
                for (k, w) in SYMBOLS.iter().chain(WORDS).enumerate() {
                    if all || (k + i + d) % 2 == 0 {
                        self.go(|| Case::one(kind, join(&[&v[..i], &[*w], &v[i..]].concat())));
                        if i < v.len() {
                            self.go(|| Case::one(kind, join(&[&v[..i], &[*w], &v[i + 1..]].concat())));
                        }
                    }
                }
                for j in i + 1..=v.len().min(i + 4) {
                    self.go(|| Case::one(kind, join(&[&v[..i], &v[j..]].concat())));
                    self.go(|| Case::one(kind, join(&[&v[..j], &v[i..j], &v[j..]].concat())));
                    if j < v.len() {
                        self.go(|| {
                            let mut u = v.clone();
                            u.swap(i, j);
                            Case::one(kind, join(&u))
                        });
                    }
                }
            }
        }
    }
    /// The tokens with two names, strings or numbers of them the same, or nearly the same.
    pub fn alike(&mut self, kind: &str, pre: &str, toks: &[Tk], post: &str) {
        const NAMES: &[(&str, &str)] = &[("Foo", "Foo"), ("Foo", "FooBar"), ("FooBar", "Foo"), ("BarFoo", "Foo"), ("Foo", "BarFoo"), ("Foo", "foo"), ("Foo", "_Foo"), ("_Foo", "_Foo"), ("x", "x"), ("x", "X"), ("ab-", "ab"), ("ab1", "ab2"), ("a_b", "a-b")];
        const STRINGS: &[(&str, &str)] = &[("\"\"", "\"\""), ("\"Foo\"", "\"Foo\""), ("\"Foo\"", "\"foo\""), ("\"Foo\"", "\"Foo \""), ("\"Foo\"", "\"FooBar\""), ("\"BarFoo\"", "\"Foo\""), ("\"a-b\"", "\"a_b\""), ("\"é\"", "\"e\u{301}\"")];
        const NUMBERS: &[(&str, &str)] = &[("1", "1"), ("1", "-1"), ("0x1F", "0x1f"), ("1.5", "1.50"), ("0", "-0"), ("1e3", "1E3"), ("NaN", "NaN"), ("10", "010")];
        let class = |t: &str| match t.chars().next().unwrap_or(' ') {
            '"' => 2,
            '-' | '0'..='9' => 3,
            c if (c.is_ascii_alphabetic() || c == '_') && !KEYWORDS.contains(&t) => 1,
            _ => 0,
        };
        let v: Vec<&str> = toks.iter().map(|t| t.text.as_str()).collect();
        let at: Vec<(usize, u8)> = v.iter().enumerate().map(|(i, t)| (i, class(t))).filter(|x| x.1 > 0).collect();
        for (k, (i, a)) in at.iter().enumerate() {
            for (j, b) in &at[k + 1..] {
                if !self.live {
                    return;
                }
                let forms: &[(&str, &str)] = match (a, b) {
                    (1, 1) => NAMES,
                    (2, 2) => STRINGS,
                    (3, 3) => NUMBERS,
                    (1, 2) => &[("Foo", "\"Foo\""), ("Foo", "\"foo\""), ("x", "\"x\"")],
                    (2, 1) => &[("\"Foo\"", "Foo"), ("\"foo\"", "Foo"), ("\"x\"", "x")],
                    _ => &[],
                };
                for (x, y) in forms {
                    self.go(|| {
                        let mut v = v.clone();
                        v[*i] = x;
                        v[*j] = y;
                        Case::one(kind, format!("{} {} {}", pre, v.join(" "), post))
                    });
                }
            }
        }
    }
    /// Samples of the rules, and of the rules in their places, with parts alike.
    pub fn alikes(&mut self, rules: &[&'static str], ctxs: &[Ctx], n: u64, p: &Profile) {
        for k in 0..n {
            for (i, rule) in rules.iter().enumerate() {
                let toks = derive(&mut Src::random(355_000 + i as u64 * 100 + k), p, rule).0;
                self.alike(&format!("rule:{}", rule), "", &toks[..toks.len().min(80)], "");
            }
            for (i, (rule, pre, post)) in ctxs.iter().enumerate() {
                let toks = derive(&mut Src::random(366_000 + i as u64 * 100 + k), p, rule).0;
                self.alike("doc", pre, &toks[..toks.len().min(80)], post);
            }
        }
    }
    /// Samples of the rules, and of the rules in their places, dressed and edited.
    pub fn dressed(&mut self, rules: &[&'static str], ctxs: &[Ctx], n: u64, all: bool) {
        for k in 0..n {
            for (i, rule) in rules.iter().enumerate() {
                let toks = derive(&mut Src::random(333_000 + i as u64 * 100 + k), &SMALL, rule).0;
                self.dressed_edits(&format!("rule:{}", rule), "", &toks, "", all);
            }
            for (i, (rule, pre, post)) in ctxs.iter().enumerate() {
                let toks = derive(&mut Src::random(344_000 + i as u64 * 100 + k), &SMALL, rule).0;
                self.dressed_edits("doc", pre, &toks, post, all);
            }
        }
    }
    /// Texts with one wider character close to the start or the end, of many lengths.
    pub fn wide(&mut self, mut f: impl FnMut(&mut Self, &str)) {
        const HEADS: &[&str] = &["", "*", "*\n", "* ", "!", "/", "\n", "\r\n", " ", "x", "TODO", "*\n * ", "0x", "-"];
        for h in HEADS {
            for (i, c) in ["é", "€", "🦀"].iter().enumerate() {
                for pad in 0..9 {
                    for (j, n) in [0, 70, 130, 300, 1100, 5000].iter().enumerate() {
                        if !self.live {
                            return;
                        }
                        let fill = [" ", "y", "-", "é"][(i + pad + j) % 4].repeat(*n);
                        let p = ["     ", "zzzzz"][(pad + j) % 2].repeat(2);
                        f(self, &format!("{}{}{}{}", h, &p[..pad], c, fill));
                        f(self, &format!("{}{}{}{}", h, fill, c, &p[..pad]));
                    }
                }
            }
        }
        // each number of bytes before, and after, it
        for c in ["é", "€", "🦀"] {
            for n in 0..1100 {
                if n < 300 || n % 7 == 0 || (500..530).contains(&n) || n > 1000 && n < 1050 {
                    f(self, &format!("{}{}{}", "y".repeat(n), c, "y".repeat(40)));
                    f(self, &format!("{}{}{}", "y".repeat(1600 - n), c, "y".repeat(n)));
                }
            }
        }
    }
    /// Samples of the rules, inflated.
    pub fn inflate_rules(&mut self, rules: &[&'static str], n: u64, p: &Profile) {
        for (ri, rule) in rules.iter().enumerate() {
            for k in 0..n {
                let mut s = Src::random(311_000 + ri as u64 * 100 + k);
                let toks = derive(&mut s, p, rule).0;
                self.inflate(&format!("rule:{}", rule), "", &toks, "", k == 0);
            }
        }
    }
    /// The sample documents, inflated.
    pub fn inflate_docs(&mut self, pre: &str, post: &str, few: bool) {
        for (i, d) in DOCS.iter().enumerate() {
            self.inflate("doc", pre, &toks_of(d), post, !few && i % 4 == 0);
        }
    }
    /// Samples of the rules in their places, inflated.
    pub fn inflate_slots(&mut self, ctxs: &[Ctx], n: u64, p: &Profile) {
        for (ci, (rule, pre, post)) in ctxs.iter().enumerate() {
            for k in 0..n {
                let mut s = Src::random(322_000 + ci as u64 * 100 + k);
                let toks = derive(&mut s, p, rule).0;
                self.inflate("doc", pre, &toks, post, k == 0 && ci % 4 == 0);
            }
        }
    }
    /// the ladder of sizes for each of the given scales
    pub fn scales(&mut self, kinds: &[&str], max: usize) {
        for k in kinds {
            for n in ladder(max) {
                self.doc(|| scale(k, n));
            }
        }
    }
}

/// The same tokens with names, strings and numbers of an unusual kind, and what to put between them.
pub const DRESSES: usize = 12;
pub fn dress(toks: &[Tk], d: usize) -> (Vec<String>, &'static str) {
    let long = "Xy-_".repeat(40);
    let f = |k: usize, t: &str| -> String {
        let c = t.chars().next().unwrap_or(' ');
        let name = (c.is_ascii_alphabetic() || c == '_') && !KEYWORDS.contains(&t);
        let string = c == '"';
        match d {
            1 if name => format!("{}__a--", t),
            2 if name => format!("{}{}{}", t.trim_end_matches('_'), long, ["", "-", "9", "--", "Z"][k % 5]),
            3 if name => "Foo".into(),
            3 if string => "\"Foo\"".into(),
            4 if string => "\"\"".into(),
            4 if name => format!("_{}", t.trim_start_matches('_').to_uppercase()),
            5 if string => "\"é */ // /* \\\n€\"".into(),
            5 if name => format!("long{}-", k),
            6 if name => ["attribute1", "Interface", "or_", "unsignedx", "static-"][k % 5].into(),
            6 if string => format!("\"{}\"", "s\r".repeat(70)),
            _ => t.to_string(),
        }
    };
    let gap = ["\r", " ", "\n", "\t\t", "/**/", " ", "/* \"é */\n", "// \"/* é\n", "/*/ // */ ", "\n\n\n\n", " ", " "][d];
    (toks.iter().enumerate().map(|(k, t)| f(k, &t.text)).collect(), gap)
}

pub fn dressed_doc(doc: &str, d: usize) -> String {
    let (t, gap) = dress(&toks_of(doc), d);
    t.join(gap)
}

/// Good definitions with much of everything in little space.
fn busy_tail() -> &'static str {
    static T: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        format!(
            "[A(),B(),C(),D(),E(),F(),G(),H(),I()]interface I{{{}}};enum E{{{}}};typedef {}A?{}a;dictionary D{{{}}};\n\n\n//\n\n\n\n\n/*é\n\n\n\n*/typedef(A?or B?or C?or[X,Y]D?)a;",
            "A f();".repeat(25),
            "\"\",".repeat(100),
            "sequence<".repeat(9),
            ">?".repeat(9),
            "A a=[];B b={};".repeat(10)
        )
    })
}

fn balanced(toks: &[Tk]) -> bool {
    let mut open = vec![];
    for t in toks {
        match t.text.as_str() {
            "(" | "[" | "{" | "<" => open.push(t.text.as_str()),
            c @ (")" | "]" | "}" | ">") => match (open.pop(), c) {
                (Some("("), ")") | (Some("["), "]") | (Some("{"), "}") | (Some("<"), ">") => {}
                _ => return false,
            },
            _ => {}
        }
    }
    open.is_empty()
}

/// small samples for the inflated forms
pub const MEDIUM: Profile = Profile { mean: 2, budget: 24, type_depth: 2, big: 0, nasty_str: 0, dup: 0, ..BASE };
pub const SMALL: Profile = Profile { mean: 1, budget: 9, type_depth: 1, big: 0, nasty_str: 0, ..BASE };

pub fn words(v: &[&str], ix: &[usize]) -> String {
    let mut s = String::new();
    for (i, k) in ix.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(v[*k]);
    }
    s
}

pub fn nothing(_: &Findings, _: &mut Stats) -> Option<(Case, String)> {
    None
}

/// The definitions of the WebIDL files that come with the repository, as committed in `corpus/`.
pub fn corpus() -> &'static Vec<Vec<String>> {
    static C: std::sync::OnceLock<Vec<Vec<String>>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        CORPUS
            .iter()
            .map(|s| Ref::new(s).definition_spans().iter().map(|&(a, b)| s[a..b].to_string()).collect())
            .collect()
    })
}
pub const CORPUS: &[&str] = &[
    include_str!("../corpus/dom.webidl"),
    include_str!("../corpus/html.webidl"),
    include_str!("../corpus/interface-constructor.webidl"),
    include_str!("../corpus/mediacapture-streams.webidl"),
    include_str!("../corpus/streams.webidl"),
    include_str!("../corpus/webgpu.webidl"),
];
