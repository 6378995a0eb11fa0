//! C01, C08..C13: whole documents and arbitrary texts.

use super::slots::{continuation, ASSUME};
use super::*;

// ---------------------------------------------------------------- C01 well-formed documents

fn corpus_doc(s: &mut Src, max: u32) -> String {
    let c = corpus();
    let n = 1 + s.count(3, max);
    let mut t = String::new();
    for _ in 0..n {
        let f = &c[s.below(c.len() as u32) as usize];
        let d = &f[s.below(f.len() as u32) as usize];
        if d.len() > 6000 {
            continue;
        }
        t.push_str(d);
        t.push_str(s.pick(&["\n", "", "\n\n// next\n", " /* x */ "]));
    }
    t
}

pub fn good_document(s: &mut Src) -> String {
    if s.pct(12) {
        return corpus_doc(s, 8);
    }
    let p = match s.below(6) {
        0..=2 => BASE,
        3 => Profile { keyword: 6, kwish: 20, ..BASE },
        4 => Profile { attr: 40, opt: 60, ..BASE },
        _ => Profile { mean: 4, budget: 600, type_depth: 4, ..BASE },
    };
    let ws = any_ws(s);
    derived_text(s, &p, "Definitions", ws)
}

pub const ALL_SCALES: &[&str] = &[
    "defs", "defs-mixed", "enum", "enum-same", "ifmembers", "opmembers", "mixmembers", "nsmembers", "dictmembers", "args", "args-opt",
    "args-ctor", "attrs", "attrs-mixed", "idents", "union", "identlen", "typelen", "escaped", "strlen", "attrstr", "dec", "hex", "oct",
    "float-int", "float-frac", "float-exp", "spaces", "newlines", "blockcomment", "linecomment", "comments", "onlycomments",
    "partials", "cbmembers", "mixed-members", "mix-ops", "ns-attrs", "dict-defaults", "args-op", "args-attrs", "args-attr", "args-named", "args-async", "attrs-arg", "attrs-type", "attrs-union", "union-arg", "union-ret", "union-wide", "comments-enum", "comments-members", "comments-args", "comments-attrs", "comments-defs", "strings", "escapes", "lits", "includes",
];
pub const NEST_SCALES: &[&str] = &["seq", "seq?", "frozen", "promise", "recordv", "recordk", "unionl", "unionr"];
const TRIVIA_SCALES: &[&str] = &["spaces", "newlines", "blockcomment", "linecomment", "comments", "onlycomments"];

/// Lists of very many equal items: (name, before, item, separator, after)
const MANY: &[(&str, &str, &str, &str, &str)] = &[
    ("definitions", "", "a includes b;", "", ""),
    ("enum", "enum E {", "\"v\"", ",", "};"),
    ("interface", "interface I {", "stringifier;", "", "};"),
    ("mixin", "interface mixin I {", "any f();", "", "};"),
    ("namespace", "partial namespace I {", "any f();", "", "};"),
    ("dictionary", "dictionary I {", "T a;", "", "};"),
    ("arguments", "callback C = any(", "any a", ",", ");"),
    ("attributes", "[", "A", ",", "] callback C = any();"),
    ("identifiers", "[A=(", "B", ",", ")] callback C = any();"),
    ("union", "typedef (", "B", " or ", ") x;"),
    ("comments", "", "/**/", "//\n", ""),
    ("name", "typedef long a", "b-", "", ";"),
    ("string", "[A=\"", "é\n", "", "\"] callback C = any();"),
    ("digits", "dictionary D { T a = 1", "0", "", "; };"),
];

/// The tree of a list of `n` equal entries is that of two entries with `n - 2` more of the same in it.
fn judge_many(form: &str, n: usize) -> Verdict {
    use std::hash::Hasher;
    let Some((_, pre, item, sep, post)) = MANY.iter().find(|m| m.0 == form) else { return pass(false, "not a case") };
    let text = |n: usize| format!("{}{}{}", pre, vec![*item; n].join(sep), post);
    // hashes of the parts of the tree in order, and the longest part
    let parts = |s: &str| -> Result<(Vec<u64>, String), &str> {
        let d = match inside(|| std::panic::catch_unwind(|| weedle::parse(s))) {
            Ok(Ok(d)) => d,
            Ok(Err(_)) => return Err("refused"),
            Err(_) => return Err("panic"),
        };
        let (mut v, mut longest) = (vec![], String::new());
        d.each(&mut |t| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            h.write(t.as_bytes());
            v.push(h.finish());
            if t.len() > longest.len() {
                longest = t.to_string();
            }
        });
        Ok((v, longest))
    };
    let s = text(n);
    let ((l2, _), (l3, _), (l, longest)) = match (parts(&text(2)), parts(&text(3)), parts(&s)) {
        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
        (a, b, c) => return Verdict::Fail(format!("{}: with 2, 3 and {} entries: {:?}, {:?}, {:?}", form, n, a.err(), b.err(), c.err())),
    };
    let d = l3.len().saturating_sub(l2.len());
    if d == 0 {
        // one long part, or comments: no part at all
        let long = item.repeat(n);
        let want = s.find(&long).filter(|_| !l2.is_empty()).map_or(0, |_| long.len());
        return if l.len() == l2.len() && (want == 0 || longest.contains(&long)) {
            pass(true, "very long value")
        } else {
            Verdict::Fail(format!("{}: {} times {:?} is not in the tree", form, n, item))
        };
    }
    let a = l2.iter().zip(&l3).take_while(|(x, y)| x == y).count();
    if l.len() != l2.len() + d * (n - 2) {
        return Verdict::Fail(format!("{}: {} entries give {} parts of a tree, 2 give {} and 3 give {}", form, n, l.len(), l2.len(), l3.len()));
    }
    let want = l2[..a].iter().chain(l3[a..a + d].iter().cycle().take(d * (n - 2))).chain(&l2[a..]);
    match l.iter().zip(want).position(|(x, y)| x != y) {
        None => pass(true, "very many equal entries"),
        Some(i) => Verdict::Fail(format!("{}: of {} equal entries, entry {} (about) is another one", form, n, i / d)),
    }
}

pub const C01: Prop = Prop {
    id: "C01",
    rule: "documents derived from the grammar with all kinds of definitions, random lists of the definitions of the repository's WebIDL files, enumerated definition skeletons, and documents scaled in 59 list/length dimensions and 8 nesting dimensions, and lists of 200 000 entries and more; non-trivial: at least 4 tokens and accepted with the tree of the reference",
    gen: |s| Case::one("doc", good_document(s)),
    eval: |c| match c.kind.strip_prefix("many:") {
        Some(n) => judge_many(&c.texts[0], n.parse().unwrap_or(1)),
        None => judge_document(&c.texts[0], false),
    },
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        for c in CORPUS {
            sh.doc(|| c.to_string());
        }
        for c in corpus() {
            for d in c {
                sh.doc(|| d.clone());
            }
        }
        for t in ["", " ", "\n", "//", "// x", "//\n", "/**/", "/* x */ // y", "\t\r\n ", "/***/\n\n//z\n"] {
            sh.doc(|| t.to_string());
        }
        for a in DOCS {
            sh.doc(|| a.to_string());
            for b in DOCS {
                sh.doc(|| format!("{}{}", a, b));
                sh.doc(|| format!("{}\n{} {}", a, b, a));
            }
        }
        // skeletons: attributes x head x name x inheritance x body
        let attrs = ["", "[A]", "[A, B=C]", "[A(long a)]", "[Exposed=(A,B)]", "[A=*]", "[A=\"s\"]"];
        let names = ["A", "_A", "a-b", "interface_", "DOMStringMap", "mixin2"];
        let imem = ["", "const long A = 1;", "attribute long a;", "undefined f();", "constructor();", "iterable<A>;", "async iterable<A,B>;", "maplike<A,B>;", "setlike<A>;", "stringifier;"];
        let heads: &[(&str, bool, &[&str])] = &[
            ("interface", true, &imem),
            ("callback interface", true, &imem),
            ("partial interface", false, &imem),
            ("interface mixin", false, &["", "const long A = 1;", "attribute long a;", "undefined f();", "stringifier;"]),
            ("partial interface mixin", false, &["", "const long A = 1;", "readonly attribute long a;", "any f(any a);", "stringifier;"]),
            ("namespace", false, &["", "const long A = 1;", "readonly attribute long a;", "any f(any a);"]),
            ("partial namespace", false, &["", "const long A = 1;", "readonly attribute long a;", "any f(any a);"]),
            ("dictionary", true, &["", "long a;", "required long a;", "long a = 5;", "DOMString a = \"\";"]),
            ("partial dictionary", false, &["", "long a;", "required long a;", "long a = 5;"]),
            ("enum", false, &["\"a\"", "\"a\",", "\"\", \"b\"", "\"a\",\"a\",\"a\""]),
        ];
        for at in attrs {
            for n in names {
                for (h, inh, bodies) in heads {
                    for b in *bodies {
                        for c in *bodies {
                            let b2 = if *h == "enum" { b.to_string() } else { format!("{} {}", b, c) };
                            sh.doc(|| format!("{} {} {} {{ {} }};", at, h, n, b2));
                            if *inh {
                                sh.doc(|| format!("{} {} {} : {} {{ {} }};", at, h, n, n, b2));
                            }
                        }
                    }
                }
                for m in names {
                    sh.doc(|| format!("{} {} includes {};", at, n, m));
                    sh.doc(|| format!("{} {} implements {};", at, n, m));
                    sh.doc(|| format!("{} typedef {} {};", at, n, m));
                    sh.doc(|| format!("{} callback {} = {} ({} x);", at, n, m, n));
                }
            }
        }
        for d in DOCS {
            sh.alike("doc", "", &toks_of(d), "");
        }
        sh.alikes(&["Definition", "Definitions"], &[], if thorough { 800 } else { 150 }, &MEDIUM);
        sh.inflate_docs("", "", false);
        sh.inflate_rules(&["Definition", "Definitions"], 30, &Profile { budget: 16, ..SMALL });
        sh.scales(ALL_SCALES, if thorough { 1 << 18 } else { 1 << 13 });
        sh.scales(NEST_SCALES, if thorough { 6000 } else { 2000 });
        for n in if thorough { vec![200_000, 1_100_000, 4_300_000, 17_000_000] } else { vec![200_000, 1_100_000] } {
            for m in MANY {
                sh.go(|| Case::one(&format!("many:{}", n), m.0.into()));
            }
        }
        for n in &dict().large {
            for k in ALL_SCALES {
                sh.doc(|| scale(k, n + 2));
                sh.doc(|| scale(k, n - 1));
            }
        }
        for k in ALL_SCALES {
            for n in if thorough { vec![70_000, 100_001, 140_000, 1_100_000] } else { vec![70_001] } {
                sh.doc(|| scale(k, n));
            }
        }
    },
    quick: 600_000,
    thorough: 20_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- C08 trivia

fn token_texts(s: &str) -> Option<Vec<&str>> {
    let v = lex(s);
    if v.last().unwrap().kind != Kind::Eof {
        return None;
    }
    Some(v[..v.len() - 1].iter().map(|t| &s[t.start..t.end]).collect())
}

fn judge_trivia(c: &Case) -> Verdict {
    let [a, b] = &c.texts[..] else { return pass(false, "not a pair") };
    let (Some(x), Some(y)) = (token_texts(a), token_texts(b)) else { return pass(false, "not tokens") };
    if x != y {
        return pass(false, "other tokens");
    }
    let (p, q) = (entries::document(a), entries::document(b));
    match (&p, &q) {
        (Out::Ok { tree: s, .. }, Out::Ok { tree: t, .. }) if s == t => pass(a != b && x.len() > 3, "both accepted, same tree"),
        (Out::Ok { .. }, _) | (_, Out::Ok { .. }) => {
            Verdict::Fail(format!("same tokens, other whitespace/comments\n  first:  {}\n  second: {}", p.show(), q.show()))
        }
        _ => pass(a != b && x.len() > 3, "both refused"),
    }
}

const PIECES: &[&str] = &[
    "\t", "\n", "\r", "\r\n", "  ", "//\n", "// x\n", "//\"\n", "///\n", "//*\n", "//*/\n", "//\r\n", "//é漢🦀\n", "// interface A {};\n", "/**/", "/***/", "/****/",
    "/*/*/", "/* x */", "/*\n*/", "/* \" */", "/* // */", "/*//*/", "/*é\u{2028}🦀*/", "/* interface A { */", "/*/**/", "/**//**/", "//\n//\n", "/**/ /**/", "/*\r*/\r", "/* * / */", "/*'*/",
    "//\\\n", "//\u{85}\u{2028}\n", "//\u{b}\u{c}\u{a0}\n", "/***\n***/", "/*** /***/", "//\0\n", "/*\0*/",
];

const TELLING: &[&str] = &[
    "@deprecated", "@ignore", "@end", "TODO", "FIXME: x", "#if 0", "#endif", "#ifdef A", "#else", "#include <x.h>", "#pragma once", "pragma once", "eslint-disable", "clang-format off", "clang-format on",
    "rustfmt::skip", "begin", "end", "BEGIN", "END", "-*- Mode: IDL; tab-width: 2 -*-", "vim: set ts=2:", "vim:", "!", "!skip", "weedle: off", "weedle: on", "weedle:ignore", "weedle-ignore-next-line", "ignore", "skip",
    "disable", "enable", "EOF", "\u{1a}", "\\", "\\\\", "x \\", "??/", "<!--", "-->", "<script>", "<![CDATA[", "]]>", "http://x/y", "file:///a", "a/b/c", "**", "*", "* *", "***", "/", "//", "///", "* /", "/ *", "/*", "/**",
    "{", "}", "{{", "}}", "(", ")", "\"", "'", "\"a", "a\"", "`", "$", "%", "%{C++", "%}", "[", "]", ";", ";;", "interface A {", "};", "[Exposed=Window]", "[Exposed=", "partial", "optional", "5", "-", "--", "- -", "=====", "-----", "é", "\u{feff}", "\0",
    "Copyright (c) 2013 The Project Authors. All rights reserved.", "SPDX-License-Identifier: MIT", "@license", "@param a b", "@return", "@see #f", "{@link x}", "doc", "(non-null)", "= 1", "?", "...", "or", "x", " ", "", "\r", "\t",
];

pub const C08: Prop = Prop {
    id: "C08",
    rule: "pairs of texts with the same tokens and different whitespace/comments: documents from the grammar (20 % edited) rendered twice, and every piece of a list of 39 awkward whitespace/comment pieces in every gap of 56 sample documents; non-trivial: the two texts differ, have at least 4 tokens, and were judged",
    gen: |s| {
        let p = if s.pct(50) { Profile { mean: 1, ..BASE } } else { BASE };
        let (mut toks, _, _) = if s.pct(15) {
            let d = corpus_doc(s, 2);
            (toks_of(&d), none(), true)
        } else {
            derive(s, &p, "Definitions")
        };
        if s.pct(20) {
            let n = toks.len();
            mutate_tokens(s, &mut toks, 0, n);
        }
        let a = render(s, &toks, Ws::Canon);
        let w = [Ws::Rand, Ws::Rand, Ws::Min, Ws::Light][s.below(4) as usize];
        let b = render(s, &toks, w);
        Case { kind: "pair".into(), texts: vec![a, b] }
    },
    eval: judge_trivia,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        sh.wide(|sh, t| {
            for (a, b) in [("/*", "*/"), ("//", "\n")] {
                let t = t.replace("*/", "* /").replace('\n', if a == "//" { "\r" } else { "\n" });
                let gap = format!("{}{}{}", a, t, b);
                sh.go(|| Case { kind: "pair".into(), texts: vec!["typedef long a;".into(), format!("typedef{}long{} a;{}", gap, gap, gap)] });
            }
        });
        for d in DOCS {
            let t = toks_of(d);
            let a = join(&t);
            for i in 0..=t.len() {
                let (l, r) = (join(&t[..i]), join(&t[i..]));
                for p in PIECES {
                    sh.go(|| Case { kind: "pair".into(), texts: vec![a.clone(), format!("{}{}{}", l, p, r)] });
                    sh.go(|| Case { kind: "pair".into(), texts: vec![a.clone(), format!("{} {} {}", l, p, r)] });
                    if thorough {
                        for q in PIECES {
                            sh.go(|| Case { kind: "pair".into(), texts: vec![a.clone(), format!("{}{}{}{}", l, p, q, r)] });
                        }
                    }
                }
                sh.go(|| Case { kind: "pair".into(), texts: vec![a.clone(), format!("{}{}", l, r)] });
                // the end of the text ends a line comment
                if i == t.len() {
                    for p in ["//", "// x", "//\"", "//*/", "//\r", "//é", "\n//", " //\t"] {
                        sh.go(|| Case { kind: "pair".into(), texts: vec![a.clone(), format!("{}{}", l, p)] });
                    }
                }
            }
            for p in PIECES {
                for q in PIECES {
                    let v: Vec<&str> = t.iter().map(|x| x.text.as_str()).collect();
                    sh.go(|| Case { kind: "pair".into(), texts: vec![a.clone(), format!("{}{}{}", p, v.join(&format!("{}{}", p, q)), q)] });
                }
            }
        }
        for d in DOCS {
            let t = toks_of(d);
            for i in 0..=t.len() {
                for n in [41, 70, 131, 258, 520, 1030, 2100, 4110, 8500, 66_000] {
                    for how in 0..5 {
                        if n > 9000 && (i + how) % 5 != 0 {
                            continue;
                        }
                        sh.go(|| {
                            let (l, r) = (join(&t[..i]), join(&t[i..]));
                            let gap = match how {
                                0 => " ".repeat(n),
                                1 => format!("/*{}{}*/", &"aaa"[..i % 3], "€".repeat(n / 3 + 1)),
                                2 => format!("//{}{}\n", &"aaa"[..i % 3], "€".repeat(n / 3 + 1)),
                                3 => "/**/\n".repeat(n / 5 + 1),
                                _ => format!("\r//{}\n/*{}", "\"".repeat(n / 2), "*/".repeat(1)),
                            };
                            Case { kind: "pair".into(), texts: vec![join(&t), format!("{}{}{}", l, gap, r)] }
                        });
                    }
                }
            }
        }
        for d in ["typedef long a ;", "interface I { undefined f ( long a ) ; } ;", "[ A = \"//\" ] enum E { \"/*\" , \"*/\" } ;"] {
            let v: Vec<String> = toks_of(d).into_iter().map(|t| t.text).collect();
            for k in TRIVIA_SCALES {
                for n in ladder(if thorough { 1 << 17 } else { 1 << 14 }) {
                    let piece = match *k {
                        "spaces" => " ".repeat(n.max(1)),
                        "newlines" => "\r\n".repeat(n.max(1)),
                        "blockcomment" => format!("/*{}*/", "* ".repeat(n)),
                        "linecomment" => format!("//{}\n", "é/".repeat(n)),
                        "comments" => "/**/".repeat(n.max(1)),
                        _ => "//\n".repeat(n.max(1)),
                    };
                    let at = 1 + n % (v.len() - 1);
                    sh.go(|| Case {
                        kind: "pair".into(),
                        texts: vec![d.into(), format!("{}{}{}{}", v[..at].join(" "), piece, v[at..].join(" "), piece)],
                    });
                }
            }
        }
        // every character in comments
        for b in (0..=0x10ffu32).map(|b| b << 8) {
            let t: String = (b..b + 256).filter_map(char::from_u32).collect();
            for (l, u) in [("//", t.replace('\n', "")), ("/*", t.clone())] {
                let d = "typedef long a;";
                let end = if l == "//" { "\n" } else { "*/" };
                sh.go(|| Case { kind: "pair".into(), texts: vec![d.into(), format!("{}{}{}typedef {}{}{} long a;{}{}{}", l, u, end, l, u, end, l, u, end)] });
            }
        }
        for c in (0..=0xffffu32).filter_map(char::from_u32) {
            if c != '\n' && ((c as u32) < 0x800 || thorough) {
                sh.go(|| Case { kind: "pair".into(), texts: vec!["enum E { \"a\" } ;".into(), format!("enum//{}\nE/*{}*/{{\"a\"//{}{}", c, c, c, "\n};")] });
            }
        }
        // how comments begin and end
        for a in (1..0x7fu8).map(|b| b as char) {
            for b in (1..0x7fu8).map(|b| b as char) {
                let (x, y) = (format!("{}{}", a, b), format!("{}{}", b, a));
                if !x.contains('\n') {
                    sh.go(|| Case { kind: "pair".into(), texts: vec!["typedef long a;".into(), format!("//{}\ntypedef long//{} x {}\na;//{}", x, x, y, x)] });
                }
                if !x.contains("*/") {
                    sh.go(|| Case { kind: "pair".into(), texts: vec!["typedef long a;".into(), format!("/*{}*/typedef/*{} x {}*/long a;/*x{}*/", x, x, y, x)] });
                }
            }
        }
        // comments that look like something
        for w in DOCS.iter().chain(SNIPPETS).chain(KEYWORDS).chain(TELLING).copied().chain(dict().words.iter().map(|w| w.as_str())) {
            for d in ["typedef long a;", "interface I { attribute long a ; long f ( ) ; } ;", "[ A ] enum E { \"a\" , \"b\" , } ;"] {
                let t = toks_of(d);
                for i in 0..=t.len() {
                    let (l, r) = (join(&t[..i]), join(&t[i..]));
                    if !w.contains("*/") {
                        for (o, c) in [("/*", "*/"), ("/* ", " */"), ("/** ", "\n */"), ("/*! ", " */")] {
                            sh.go(|| Case { kind: "pair".into(), texts: vec![d.into(), format!("{} {}{}{} {}", l, o, w, c, r)] });
                        }
                    }
                    for o in ["//", "// ", "/// ", "//! "] {
                        sh.go(|| Case { kind: "pair".into(), texts: vec![d.into(), format!("{} {}{}\n{}", l, o, w.replace('\n', " "), r)] });
                        if i == t.len() {
                            sh.go(|| Case { kind: "pair".into(), texts: vec![d.into(), format!("{} {}{}", l, o, w.replace('\n', " "))] });
                        }
                    }
                }
            }
        }
        for a in ["", " ", "\n"] {
            for p in PIECES {
                for q in PIECES.iter().chain(&["", "//", "// x"]) {
                    sh.go(|| Case { kind: "pair".into(), texts: vec![a.into(), format!("{}{}", p, q)] });
                }
            }
        }
    },
    quick: 900_000,
    thorough: 12_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: &["the reference lexer decides which texts have the same tokens"],
};

// ---------------------------------------------------------------- C09 nothing else is accepted

fn judge_refused(c: &Case) -> Verdict {
    let s = &c.texts[0];
    let mut r = Ref::new(s);
    match r.document() {
        Ok(_) => pass(false, "inside the grammar (not judged here)"),
        Err((_, off)) => match entries::document(s) {
            Out::Err { .. } => pass(true, "refused with an error"),
            o => Verdict::Fail(format!("expected: an error (the definition at byte {} is outside the grammar)\n  actual: {}", off, o.show())),
        },
    }
}

const BAD_SPACE: &[&str] = &["\u{b}", "\u{c}", "\u{a0}", "\u{85}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{200b}", "\u{3000}", "\0", "\u{1680}", "\u{2009}", "\u{1f}", "\u{8}"];

pub const C09: Prop = Prop {
    id: "C09",
    rule: "every single token deletion, duplication, swap, replacement and insertion (about 130 words), every truncation and many single-character edits of 56 sample documents; random documents with 1 to 4 edits of tokens or characters; non-trivial: the reference refuses the text (distinct texts)",
    gen: |s| {
        let p = Profile { mean: 1, budget: 120, keyword: 3, ..BASE };
        let (mut toks, _, _) = match s.below(10) {
            0 => (toks_of(s.pick(DOCS)), none(), true),
            1 => {
                let d = corpus_doc(s, 1);
                (toks_of(&d), none(), true)
            }
            _ => derive(s, &p, "Definitions"),
        };
        if toks.is_empty() {
            toks = toks_of(s.pick(DOCS));
        }
        if s.below(4) < 3 {
            for _ in 0..1 + s.count(1, 3) {
                let n = toks.len();
                mutate_tokens(s, &mut toks, 0, n);
            }
            let ws = [Ws::Canon, Ws::Light, Ws::Min][s.below(3) as usize];
            Case::one("doc", render(s, &toks, ws))
        } else {
            let ws = any_ws(s);
            let mut t = render(s, &toks, ws);
            for _ in 0..1 + s.count(1, 2) {
                mutate_text(s, &mut t);
            }
            Case::one("doc", t)
        }
    },
    eval: judge_refused,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        for d in DOCS {
            sh.dressed_edits("doc", "", &toks_of(d), "", true);
        }
        sh.dressed(&[], MEMBER_CTX, if thorough { 15 } else { 3 }, true);
        sh.inflate_docs("", "", true);
        sh.inflate_docs("", "x", true);
        sh.inflate_docs("enum E { \"a\" }", "", true);
        let voc: Vec<&str> = SYMBOLS.iter().chain(KEYWORDS).chain(SOUP).chain(&["[ A ]", "( )", "{ }", "a a", "= 1", ", ,", "x ;", "/*", "//", "*/", "\"", "_", "__", "_0"]).copied().collect();
        for d in DOCS {
            let t = toks_of(d);
            for i in 0..=t.len() {
                let (l, r) = (join(&t[..i]), join(&t[i..]));
                for w in SNIPPETS {
                    sh.doc(|| format!("{} {} {}", l, w, r));
                    if i < t.len() {
                        sh.doc(|| format!("{} {} {}", l, w, join(&t[i + 1..])));
                    }
                    if i + 1 < t.len() {
                        sh.doc(|| format!("{} {} {}", l, w, join(&t[i + 2..])));
                    }
                }
                for w in &voc {
                    sh.doc(|| format!("{} {} {}", l, w, r));
                    if i < t.len() {
                        sh.doc(|| format!("{} {} {}", l, w, join(&t[i + 1..])));
                    }
                }
                for b in BAD_SPACE {
                    sh.doc(|| format!("{}{}{}", l, b, r));
                    sh.doc(|| format!("{} {} {}", l, b, r));
                    sh.doc(|| format!("{} /**/{} {}", l, b, r));
                }
                if i < t.len() {
                    sh.doc(|| format!("{} {}", l, join(&t[i + 1..])));
                    sh.doc(|| format!("{} {} {}", l, t[i].text, r));
                    // all truncations, all runs dropped
                    sh.doc(|| l.clone());
                    for j in i + 2..=t.len() {
                        sh.doc(|| format!("{} {}", l, join(&t[j..])));
                        if thorough || j <= i + 12 {
                            sh.doc(|| format!("{} {} {}", join(&t[..j]), join(&t[i..j]), join(&t[j..])));
                        }
                    }
                    for j in i + 1..t.len() {
                        let mut u = t.clone();
                        u.swap(i, j);
                        sh.doc(|| join(&u));
                    }
                }
            }
            // characters
            let ix: Vec<usize> = d.char_indices().map(|x| x.0).chain([d.len()]).collect();
            for (k, &i) in ix.iter().enumerate() {
                sh.doc(|| d[..i].to_string());
                for x in NASTY {
                    sh.doc(|| format!("{}{}{}", &d[..i], x, &d[i..]));
                    if k + 1 < ix.len() {
                        sh.doc(|| format!("{}{}{}", &d[..i], x, &d[ix[k + 1]..]));
                    }
                }
                for b in 33u8..127 {
                    sh.doc(|| format!("{}{}{}", &d[..i], b as char, &d[i..]));
                }
                if k + 1 < ix.len() {
                    sh.doc(|| format!("{}{}", &d[..i], &d[ix[k + 1]..]));
                }
            }
            for e in DOCS {
                // a good definition after, before or inside a broken one
                let u = toks_of(e);
                for i in 0..t.len() {
                    if thorough || i % 3 == 0 {
                        let mut v = t.clone();
                        v.remove(i);
                        sh.doc(|| format!("{} {}", join(&v), e));
                        sh.doc(|| format!("{} {}", e, join(&v)));
                        sh.doc(|| format!("{} {} {}", join(&t[..i]), join(&u), join(&t[i..])));
                    }
                }
            }
        }
        for w in SNIPPETS {
            sh.doc(|| w.to_string());
            for (_, pre, post) in MEMBER_CTX.iter().chain(ARG_CTX).chain(TYPE_CTX).chain(LIT_CTX).chain(NAME_CTX) {
                sh.doc(|| format!("{} {} {}", pre, w, post));
            }
            for v in SNIPPETS {
                sh.doc(|| format!("{} {}", w, v));
                for (_, pre, post) in MEMBER_CTX.iter().take(if thorough { 99 } else { 1 }) {
                    sh.doc(|| format!("{} {} {} {}", pre, w, v, post));
                }
            }
        }
        // the same edits of small definitions from the generator
        for k in 0..if thorough { 4000 } else { 250 } {
            let mut s = Src::random(91_000 + k as u64);
            let p = Profile { mean: 1, budget: 14, type_depth: 2, big: 0, nasty_str: 0, ..BASE };
            let (t, _, _) = derive(&mut s, &p, "Definition");
            for i in 0..=t.len() {
                let (l, r) = (join(&t[..i]), join(&t[i..]));
                for (wi, w) in voc.iter().enumerate() {
                    if thorough || (wi + i + k) % 4 == 0 {
                        sh.doc(|| format!("{} {} {}", l, w, r));
                    }
                }
                for j in i + 1..=t.len() {
                    sh.doc(|| format!("{} {}", l, join(&t[j..])));
                    sh.doc(|| format!("{} {} {}", join(&t[..j]), join(&t[i..j]), join(&t[j..])));
                    if j < t.len() {
                        let mut u = t.clone();
                        u.swap(i, j);
                        sh.doc(|| join(&u));
                    }
                }
            }
        }
        for d in DOCS {
            let t = toks_of(d);
            for i in 0..=t.len() {
                let (l, r) = (join(&t[..i]), join(&t[i..]));
                for w in dict().words.iter().cloned().chain(dict().chars.iter().map(|c| c.to_string())) {
                    sh.doc(|| format!("{} {} {}", l, w, r));
                    if i < t.len() {
                        sh.doc(|| format!("{} {} {}", l, w, join(&t[i + 1..])));
                    }
                }
            }
        }
        // no other character is whitespace, or a token
        let step = if thorough { 1 } else { 5 };
        for c in (0x80..=0x10ffffu32).filter(|c| *c < 0x3100 || c % step == 0).filter_map(char::from_u32) {
            sh.doc(|| format!("typedef{}long a;", c));
            sh.doc(|| format!("typedef long a;{}", c));
            if (c as u32) < 0x3100 {
                sh.doc(|| format!("{}typedef long a;", c));
                sh.doc(|| format!("typedef long {} a;", c));
                sh.doc(|| format!("enum E {{ \"a\"{}\"b\" }};", c));
                sh.doc(|| format!("interface I {{ {} }};", c));
                sh.doc(|| format!("typedef long {};", c));
            }
        }
        // one bad item in a long list
        for n in [3usize, 17, 100, 1000, 5000] {
            for (good, bad, sep, pre, post) in [
                ("typedef long a;", "typedef long;", " ", "", ""),
                ("\"v\"", "v", ",", "enum E {", "};"),
                ("\"v\"", "", ",", "enum E {", "};"),
                ("long a", "long", ",", "callback C = any(", ");"),
                ("long a", "", ",", "callback C = any(", ");"),
                ("attribute long a;", "attribute long a", " ", "interface I {", "};"),
                ("attribute long a;", "inherit long f();", " ", "interface I {", "};"),
                ("long a;", "long a = ;", " ", "dictionary D {", "};"),
                ("long f();", "attribute long a;", " ", "namespace N {", "};"),
                ("A", "=", ",", "[", "] typedef long x;"),
                ("A", "any", " or ", "typedef (", ") x;"),
                ("/**/", "/*", " ", "typedef ", "long x;"),
            ] {
                for at in [0, 1, n / 2, n - 2, n - 1] {
                    sh.doc(|| {
                        let mut v = vec![good; n];
                        v[at] = bad;
                        format!("{}{}{}", pre, v.join(sep), post)
                    });
                }
            }
        }
    },
    quick: 900_000,
    thorough: 30_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- C10 every input gets an answer

fn judge_total(c: &Case) -> Verdict {
    let s = &c.texts[0];
    let bad = |n: &str, o: Out| Verdict::Fail(format!("{}: {}", n, o.show()));
    let mut accepted = 0;
    let one = |n: &str, o: Out, accepted: &mut u32| match o {
        Out::Ok { .. } => {
            *accepted += 1;
            None
        }
        Out::Err { .. } => None,
        o => Some(bad(n, o)),
    };
    if let Some(v) = one("parse", entries::document(s), &mut accepted) {
        return v;
    }
    let doc = accepted;
    if c.kind != "document" {
        for (n, f) in entries::TYPES.iter().chain(entries::LITS).chain(entries::GENERICS) {
            if let Some(v) = one(n, f(s), &mut accepted) {
                return v;
            }
        }
        for (n, f, g) in entries::terms().iter().chain(&[entries::neg_infinity()]) {
            for f in [f, g] {
                if let Some(v) = one(n, f(s), &mut accepted) {
                    return v;
                }
            }
        }
    }
    pass(s.len() > 2, if doc > 0 { "document accepted" } else if accepted > 0 { "some types accept a prefix" } else { "refused by all" })
}

const CHARS: &[char] = &[
    'a', 'Z', '0', '9', '_', '-', '.', '"', '/', '*', ' ', '\n', '\r', '\t', '(', ')', '[', ']', '{', '}', '<', '>', ',', ';', ':', '=', '?', '\\', '\'', '#',
    'é', 'ß', '漢', '🦀', '\u{0}', '\u{7f}', '\u{80}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{10ffff}', 'x', 'e', 'E', '+', '@', '~', '\u{d7ff}', '\u{e000}',
];

fn arbitrary_text(s: &mut Src) -> String {
    match s.below(8) {
        0 => {
            let n = s.count(8, 60);
            (0..n).map(|_| *s.pick(CHARS)).collect()
        }
        1 => {
            let n = s.count(8, 60);
            (0..n).map(|_| char::from_u32(s.below(0x11_0000)).unwrap_or('\u{fffd}')).collect()
        }
        2 => {
            let n = s.count(8, 40);
            let toks: Vec<Tk> = (0..n).map(|_| Tk { text: vocab(s) }).collect();
            let ws = any_ws(s);
            render(s, &toks, ws)
        }
        3 => {
            // the front of a document, cut anywhere
            let mut t = good_document(s);
            let n = t.chars().count() as u32;
            let k = s.below(n + 1) as usize;
            let ix = t.char_indices().nth(k).map_or(t.len(), |x| x.0);
            t.truncate(ix);
            t
        }
        4 => {
            let (_, pre, post) = *s.pick(LIT_CTX);
            let n = s.count(5, 20);
            let m: String = (0..n).map(|_| *s.pick(CHARS)).collect();
            format!("{} {} {}", pre, m, post)
        }
        _ => {
            let p = Profile { mean: 1, budget: 100, keyword: 4, nasty_str: 70, ..BASE };
            let g = crate::grammar::grammar();
            let rule = g.names[s.below(g.names.len() as u32) as usize];
            let (mut toks, _, _) = derive(s, &p, rule);
            for _ in 0..s.count(1, 3) {
                let n = toks.len();
                mutate_tokens(s, &mut toks, 0, n);
            }
            let ws = any_ws(s);
            let mut t = render(s, &toks, ws);
            for _ in 0..s.count(2, 4) {
                mutate_text(s, &mut t);
            }
            t
        }
    }
}

pub const C10: Prop = Prop {
    id: "C10",
    rule: "arbitrary texts (random characters, token soup, cut and edited documents, all 1- and 2-character texts over 47 characters) through the document parser, 117 public grammar types, 35 instances of the generic blocks and 83 terminals twice; very long runs of single characters and tokens through the document parser; non-trivial: more than two bytes",
    gen: |s| {
        let t = arbitrary_text(s);
        if t.len() > 4000 {
            return Case::one("document", t);
        }
        Case::one("all", t)
    },
    eval: judge_total_or_stack,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        sh.sequences(CHARS.len(), 0, if thorough { 3 } else { 2 }, |sh, ix| {
            sh.go(|| Case::one("all", ix.iter().map(|i| CHARS[*i]).collect()));
        });
        for t in SYMBOLS.iter().chain(KEYWORDS).chain(SOUP).chain(NASTY) {
            for n in [1, 2, 3, 100, 5000, 70_000] {
                let rep = |sep: &str| vec![*t; n].join(sep);
                if n < 1000 {
                    sh.go(|| Case::one("all", rep("")));
                    sh.go(|| Case::one("all", rep(" ")));
                }
                sh.go(|| Case::one("document", rep("")));
                sh.go(|| Case::one("document", rep(" ")));
                sh.go(|| Case::one("document", format!("enum E {{\"{}\"}};", rep("").replace('"', ""))));
                sh.go(|| Case::one("document", format!("typedef {} x;", rep(""))));
                sh.go(|| Case::one("document", format!("interface I {{ const long x = {}; }};", rep(""))));
            }
        }
        for d in DOCS {
            for (i, _) in d.char_indices() {
                sh.go(|| Case::one("all", d[..i].to_string()));
                sh.go(|| Case::one("all", d[i..].to_string()));
            }
        }
        // nested types, whole and cut, with a stack of ordinary size
        for (depth, mib) in [(100, 2), (500, 8)] {
            for k in NEST_SCALES {
                sh.go(|| Case::one(&format!("stack:{}", mib), scale(k, depth)));
                sh.go(|| {
                    let t = scale(k, depth);
                    Case::one(&format!("stack:{}", mib), t[..t.len() / 2].to_string())
                });
            }
            for l in 0..super::history::LEVELS.len() {
                for (i, (pre, post)) in super::history::WORK_CTX.iter().enumerate() {
                    if thorough || (i + l) % 4 == 0 {
                        sh.go(|| Case::one(&format!("stack:{}", mib), format!("{}{}{}", pre, super::history::nested(&[l], depth / 2, "long"), post)));
                    }
                }
            }
        }
        // long lists need no stack
        for k in ALL_SCALES {
            if !NEST_SCALES.contains(k) {
                sh.go(|| Case::one("stack:2", scale(k, if thorough { 400_000 } else { 60_000 })));
                sh.go(|| {
                    let t = scale(k, 60_000);
                    let e = (0..=t.len() * 2 / 3).rev().find(|e| t.is_char_boundary(*e)).unwrap_or(0);
                    Case::one("stack:2", t[..e].to_string())
                });
            }
        }
        sh.wide(|sh, t| {
            sh.go(|| Case::one("document", format!("/*{}*/typedef long a;", t.replace("*/", "* /"))));
            sh.go(|| Case::one("document", format!("//{}\ntypedef long a;", t)));
            sh.go(|| Case::one("document", format!("typedef long a;//{}", t)));
            sh.go(|| Case::one("document", format!("typedef long a;/*{}", t)));
            sh.go(|| Case::one("document", format!("enum E {{ \"{}\" }};", t)));
            sh.go(|| Case::one("document", format!("enum E {{ \"{}", t)));
            sh.go(|| Case::one("document", format!("typedef long a; {}", t)));
            sh.go(|| Case::one("document", format!("typedef long {}", t)));
        });
        for (i, (name, _)) in entries::TYPES.iter().enumerate() {
            for k in 0..if thorough { 400 } else { 40 } {
                // one huge dimension, through every type
                sh.go(|| {
                    let mut s = Src::random(33_000 + (i * 1000 + k) as u64);
                    let p = Profile { mean: 1, budget: 30, type_depth: 2, big: 1000, big_max: 1500, nasty_str: 80, ..BASE };
                    let (toks, _, _) = derive(&mut s, &p, name);
                    Case::one("all", join(&toks))
                });
            }
        }
        for k in ALL_SCALES {
            for n in ladder(if thorough { 1 << 18 } else { 1 << 13 }) {
                sh.go(|| Case::one("document", scale(k, n)));
                // cut short
                sh.go(|| {
                    let mut t = scale(k, n);
                    let mut e = t.len() * 3 / 4;
                    while !t.is_char_boundary(e) {
                        e -= 1;
                    }
                    t.truncate(e);
                    Case::one("document", t)
                });
            }
        }
    },
    quick: 220_000,
    thorough: 8_000_000,
    hang_is_violation: true,
    finish: deep_probe,
    assumptions: &["`ordinary stack space` is 8 MiB (2 MiB on a spawned thread), and types nested 500 (100) deep must fit, a sixth of what fits today or less; deeper nesting is the recorded finding deep-nesting"],
};

/// Parses the text in a child with a stack of that many MiB: did it end by itself?
fn stack_ok(text: &str, mib: usize) -> bool {
    use std::io::Write;
    let child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["stack", &mib.to_string()])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn();
    child.map_or(false, |mut c| {
        let _ = c.stdin.take().unwrap().write_all(text.as_bytes());
        c.wait().map_or(false, |s| s.success())
    })
}

fn judge_total_or_stack(c: &Case) -> Verdict {
    let Some(mib) = c.kind.strip_prefix("stack:") else { return judge_total(c) };
    if stack_ok(&c.texts[0], mib.parse().unwrap_or(8)) {
        pass(true, "nested, stack of ordinary size")
    } else {
        Verdict::Fail(format!("the process ends with a stack of {} MiB", mib))
    }
}

fn deep_probe(f: &Findings, st: &mut Stats) -> Option<(Case, String)> {
    let mut limit = vec![];
    for k in NEST_SCALES {
        st.evaluations += 1;
        let (mut lo, mut hi) = (500, 200_000);
        while hi - lo > lo / 8 {
            let mid = (lo + hi) / 2;
            if stack_ok(&scale(k, mid), 8) {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        limit.push(format!("{}: {}", k, lo));
    }
    st.notes.push(format!("greatest nesting depth that fits 8 MiB of stack, by kind (about): {}", limit.join(", ")));
    if !stack_ok(&scale("seq", 200_000), 8) {
        match f.get("deep-nesting") {
            Some(w) => st.known.push(format!("key=deep-nesting {}", w)),
            None => {
                return Some((Case::one("stack:8", scale("seq", 200_000)), "sequence types nested 200000 deep overflow the stack".into()));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C11 sub-parsers

pub const C11: Prop = Prop {
    id: "C11",
    rule: "every public grammar type (99) on derivations of its rule or of related rules, edited in a third of the cases, with awkward text after it; enumerated samples x continuations; non-trivial: something was read, or refused with at least 2 tokens present",
    gen: |s| {
        let all = entries::TYPES;
        let (name, _) = all[s.below(all.len() as u32) as usize];
        let p = Profile { mean: 2, budget: 60, keyword: 3, type_depth: 2, ..BASE };
        let rule = if s.pct(12) { all[s.below(all.len() as u32) as usize].0 } else { name };
        let rule: &'static str = rule;
        let (mut toks, tree, amb) = derive(s, &p, rule);
        if !amb && toks.len() % 8 == 1 {
            self_check(&join(&toks), rule, &tree);
        }
        if s.pct(33) {
            let n = toks.len();
            mutate_tokens(s, &mut toks, 0, n);
        }
        let ws = any_ws(s);
        let mut t = render(s, &toks, ws);
        if s.pct(70) {
            t.push_str(&continuation(s));
        }
        if s.pct(15) {
            let front = trivia(s, 1);
            t = format!("{}{}", front, t);
        }
        Case::one(&format!("rule:{}{}", if s.pct(15) { "opt." } else { "" }, name), t)
    },
    eval: judge,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        let tails = [
            "", " ", ";", " ;", "x", " x", "?", " ?", ",", " , a", "...", "=", " = 1", "(", "()", ")", ">", "< long >", "or", " or B", "[", "[ A ]", "]", "{", "}", "\"s\"", "\"", "//", "// c\n;", "/* c */ ;",
            "/*", "é", "\u{a0}", "0", ".5", "-", "_", "long", " long", "includes B;", ": B", "\0", "attribute long a;", "interface I {};",
        ];
        let voc: Vec<&str> = SYMBOLS.iter().chain(KEYWORDS).chain(SOUP).copied().collect();
        // a few samples of each rule, from the generator with fixed choices
        for (ri, (name, _)) in entries::TYPES.iter().enumerate() {
            for k in 0..if thorough { 40 } else { 12 } {
                let mut s = Src::random(77_000 + (ri * 1000 + k) as u64);
                let p = Profile { mean: 1, budget: 12, type_depth: 2, big: 0, nasty_str: 0, ..BASE };
                let (toks, _, _) = derive(&mut s, &p, name);
                let t = join(&toks);
                for tail in tails {
                    sh.go(|| Case::one(&format!("rule:{}", name), format!("{}{}", t, tail)));
                    sh.go(|| Case::one(&format!("rule:{}", name), format!(" /**/{}", &format!("{}{}", t, tail))));
                }
                for back in [" ", "\t", "\r", "\n", "//\n", "//", "/**/", "/***/\r\t", "\r\n//x"] {
                    sh.go(|| Case::one(&format!("rule:{}", name), format!("{}{}", t, back)));
                    sh.go(|| Case::one(&format!("rule:{}", name), format!("{}{};", t, back)));
                }
                // single edits: tokens dropped, doubled, swapped, replaced, added; runs doubled
                for i in 0..=toks.len() {
                    let (l, r) = (join(&toks[..i]), join(&toks[i..]));
                    for (wi, w) in voc.iter().enumerate() {
                        if thorough || (wi + i + k) % 3 == 0 || wi < SYMBOLS.len() {
                            sh.go(|| Case::one(&format!("rule:{}", name), format!("{} {} {}", l, w, r)));
                            if i < toks.len() {
                                sh.go(|| Case::one(&format!("rule:{}", name), format!("{} {} {}", l, w, join(&toks[i + 1..]))));
                            }
                        }
                    }
                    for j in i + 1..=toks.len().min(i + 9) {
                        sh.go(|| Case::one(&format!("rule:{}", name), format!("{} {}", l, join(&toks[j..]))));
                        sh.go(|| Case::one(&format!("rule:{}", name), format!("{} {} {}", join(&toks[..j]), join(&toks[i..j]), join(&toks[j..]))));
                        if j < toks.len() {
                            let mut u = toks.clone();
                            u.swap(i, j);
                            sh.go(|| Case::one(&format!("rule:{}", name), join(&u)));
                        }
                    }
                }
                if t.len() < 60 {
                    let ix: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
                    for w in ix.windows(2) {
                        sh.go(|| Case::one(&format!("rule:{}", name), format!("{}{}", &t[..w[0]], &t[w[1]..])));
                        sh.go(|| Case::one(&format!("rule:{}", name), format!("{}{}{}", &t[..w[0]], &t[w[0]..w[1]], &t[w[0]..])));
                        for x in ["0", "1", "8", "x", "X", "e", "E", "a", "A", "_", "-", "+", ".", "\"", "/", "*", "\n", "é", "?", ","] {
                            sh.go(|| Case::one(&format!("rule:{}", name), format!("{}{}{}", &t[..w[0]], x, &t[w[0]..])));
                            sh.go(|| Case::one(&format!("rule:{}", name), format!("{}{}{}", &t[..w[0]], x, &t[w[1]..])));
                        }
                    }
                }
                // every other type on the same text
                for (other, _) in entries::TYPES {
                    sh.go(|| Case::one(&format!("rule:{}", other), t.clone()));
                    sh.go(|| Case::one(&format!("rule:opt.{}", other), t.clone()));
                }
            }
            sh.inflate_rules(&[name], 2, &SMALL);
            sh.dressed(&[name], &[], if thorough { 12 } else { 2 }, true);
            for tail in tails {
                for front in ["", " \n", "\t", "\r", "\n", "//\n", "/**/", "//\r\n\r", "/*x*/ \t"] {
                    for o in ["", "opt."] {
                        sh.go(|| Case::one(&format!("rule:{}{}", o, name), format!("{}{}", front, tail)));
                    }
                }
            }
            for d in DOCS {
                sh.go(|| Case::one(&format!("rule:{}", name), d.to_string()));
                let t = toks_of(d);
                for i in 1..t.len() {
                    if thorough || (i + ri) % 4 == 0 {
                        sh.go(|| Case::one(&format!("rule:{}", name), join(&t[i..])));
                    }
                }
            }
        }
    },
    quick: 1_800_000,
    thorough: 30_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- C12 error position

fn judge_error(c: &Case) -> Verdict {
    let s = &c.texts[0];
    let mut r = Ref::new(s);
    let (prefix, off) = match r.document() {
        Ok(t) => {
            // a good document is no error, and the list parser reads all of it
            return match (entries::document(s), entries::find("Definitions").unwrap()(s)) {
                (Out::Ok { .. }, Out::Ok { tree, rest }) if tree == t && (rest == s.len() || t.items().is_empty()) => {
                    pass(false, "no error, and none reported")
                }
                (a, b) => Verdict::Fail(format!("well formed\n  parse: {}\n  Definitions::parse: {}", a.show(), b.show())),
            };
        }
        Err(x) => x,
    };
    match entries::document(s) {
        Out::Err { rest } if rest == off => {}
        o => {
            return Verdict::Fail(format!(
                "expected: an error at byte {} ({:?})\n  actual: {}",
                off,
                cut(&s[off..]),
                o.show()
            ))
        }
    }
    match entries::find("Definitions").unwrap()(s) {
        // with no definition before it, whitespace in front may be unread too
        Out::Ok { tree, rest } if tree == prefix && (rest == off || (rest <= off && prefix.items().is_empty() && s[rest..off].len() == trivia_len(&s[rest..]))) => {}
        o => {
            return Verdict::Fail(format!(
                "Definitions::parse: expected {} definitions, rest at {}: {}\n  actual: {}",
                prefix.items().len(),
                off,
                prefix.show(700),
                o.show()
            ))
        }
    }
    pass(true, if prefix.items().is_empty() { "error in the first definition" } else { "error after good definitions" })
}

pub const C12: Prop = Prop {
    id: "C12",
    rule: "good definitions followed by an edited one, followed by others, with all kinds of whitespace and comments; pairs of sample documents with one token dropped; non-trivial: the document is malformed, and both the error position and the definitions before it were compared",
    gen: |s| {
        let p = Profile { mean: 1, budget: 60, ..BASE };
        let mut toks = vec![];
        for _ in 0..s.count(2, 12) {
            if s.pct(30) {
                let d = *s.pick(DOCS);
                toks.extend(toks_of(d));
            } else {
                toks.extend(derive(s, &p, "Definition").0);
            }
        }
        let (mut bad, _, _) = derive(s, &p, "Definition");
        for _ in 0..1 + s.count(1, 2) {
            let n = bad.len();
            mutate_tokens(s, &mut bad, 0, n);
        }
        toks.extend(bad);
        for _ in 0..s.count(1, 3) {
            toks.extend(derive(s, &p, "Definition").0);
        }
        let ws = any_ws(s);
        let mut t = render(s, &toks, ws);
        if s.pct(15) {
            mutate_text(s, &mut t);
        }
        Case::one("doc", t)
    },
    eval: judge_error,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        for a in DOCS {
            for b in DOCS {
                let t = toks_of(b);
                for i in 0..t.len() {
                    if !thorough && (i + a.len()) % 3 != 0 {
                        continue;
                    }
                    let mut v = t.clone();
                    v.remove(i);
                    for gap in ["", "\n", "/*c*/", "  //x\n"] {
                        sh.doc(|| format!("{}{}{}{}", a, gap, join(&v), a));
                    }
                }
            }
            for g in ["", " ", "\n//\n", "/**/"] {
                for junk in ["}", ";", ";;", "\"", "\"s\"", "/*", "/* x", "*/", "/", "#", "é", "\u{a0}", "\u{feff}", "x", "1", "[", "[A]", "[ ]", "typedef", "interface", "\0", "🦀", "...", "-", "_", "any", "[A] x", "// y\n }", "typedef long a", "typedef long é;"] {
                    sh.doc(|| format!("{}{}{}", a, g, junk));
                    sh.doc(|| format!("{}{}{}{}", g, junk, g, a));
                    sh.doc(|| format!("{}{}{}{}{}", a, g, junk, g, a));
                    sh.doc(|| format!("{}{}", g, junk));
                }
            }
        }
        for d in DOCS {
            sh.dressed_edits("doc", "enum E {};", &toks_of(d), "typedef long a;", thorough);
        }
        sh.inflate_docs("typedef long a; enum E {};", " /**/ typedef long é;", true);
        sh.inflate_docs("", "x", true);
        for n in ladder(if thorough { 1 << 16 } else { 1 << 12 }) {
            for k in ["defs", "defs-mixed", "ifmembers", "enum", "comments"] {
                for junk in [" typedef long;", " }", " interface I {} x"] {
                    sh.doc(|| format!("{}{}", scale(k, n), junk));
                    sh.doc(|| format!("{} {}", junk, scale(k, n)));
                }
            }
        }
    },
    quick: 450_000,
    thorough: 15_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- C13 lossless, borrowed

fn judge_lossless(c: &Case) -> Verdict {
    let s = &c.texts[0];
    let tree = match entries::document(s) {
        Out::Ok { tree, .. } => tree,
        _ => return pass(false, "refused"),
    };
    let mut flat = vec![];
    tree.flatten(&mut flat);
    let toks = lex(s);
    let mut i = 0;
    let text = |k: usize| &s[toks[k].start..toks[k].end];
    let mut borrowed = 0;
    for (w, at) in &flat {
        // a comma that ends an enum is not kept
        if toks[i].kind == Kind::Sym && text(i) == "," && *w == "}" && i + 1 < toks.len() && text(i + 1) == "}" {
            i += 1;
        }
        if matches!(toks[i].kind, Kind::Eof | Kind::Invalid) {
            return Verdict::Fail(format!("the tree holds {:?} after the last token of the source", w));
        }
        let (mut src, mut start) = (text(i), toks[i].start);
        if *w != src && toks[i].kind == Kind::Word && src.starts_with('_') {
            src = &src[1..];
            start += 1;
        }
        if *w != src {
            return Verdict::Fail(format!(
                "token {} of the source, at byte {}, is {:?}; the tree holds {:?}",
                i, toks[i].start, src, w
            ));
        }
        if *at != 0 {
            borrowed += 1;
            if *at != s.as_ptr() as usize + start {
                return Verdict::Fail(format!(
                    "{:?} is written at byte {}, but the tree's slice is at {}",
                    w,
                    start,
                    (*at as i128) - (s.as_ptr() as usize as i128)
                ));
            }
        } else if toks[i].kind != Kind::Sym && !KEYWORDS.contains(&src) && src != "-Infinity" {
            return Verdict::Fail(format!("{:?} at byte {} is not borrowed from the source", w, start));
        }
        i += 1;
    }
    if toks[i].kind != Kind::Eof {
        return Verdict::Fail(format!("the token {:?} at byte {} and what follows is not in the tree", text(i), toks[i].start));
    }
    pass(flat.len() > 3 && borrowed > 0, "read back in full")
}

pub const C13: Prop = Prop {
    id: "C13",
    rule: "accepted documents (from the grammar, the repository's WebIDL files, the samples, scaled ones): the tree flattened to tokens against the tokens of the source, one by one, text and address; non-trivial: accepted, at least 4 tokens, at least one borrowed slice",
    gen: |s| {
        if s.pct(25) {
            let p = Profile { weird: 60, nasty_str: 70, mean: 2, ..BASE };
            let ws = any_ws(s);
            return Case::one("doc", derived_text(s, &p, "Definitions", ws));
        }
        if s.pct(15) {
            // edits that may or may not keep it well formed
            let mut t = good_document(s);
            mutate_text(s, &mut t);
            return Case::one("doc", t);
        }
        Case::one("doc", good_document(s))
    },
    eval: judge_lossless,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        for c in CORPUS {
            sh.doc(|| c.to_string());
        }
        for d in DOCS {
            for e in DOCS {
                sh.doc(|| format!("{}/*x*/{}", d, e));
            }
            let t = toks_of(d);
            let voc: Vec<&str> = SYMBOLS.iter().chain(KEYWORDS).chain(SOUP).copied().collect();
            for i in 0..=t.len() {
                for w in &voc {
                    sh.doc(|| format!("{} {} {}", join(&t[..i]), w, join(&t[i..])));
                    if i < t.len() {
                        sh.doc(|| format!("{} {} {}", join(&t[..i]), w, join(&t[i + 1..])));
                    }
                }
            }
        }
        for d in DOCS {
            sh.alike("doc", "", &toks_of(d), "");
        }
        sh.inflate_docs("", "", true);
        sh.scales(ALL_SCALES, if thorough { 1 << 17 } else { 1 << 13 });
        sh.scales(NEST_SCALES, 1100);
    },
    quick: 600_000,
    thorough: 20_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: &["the reference lexer splits the source into tokens as documented"],
};
