//! C17 generic building blocks, C18 terminals.

use super::slots::{continuation, ASSUME};
use super::*;

// ---------------------------------------------------------------- C17

/// What the documentation says of the blocks, over elements of our own that read no whitespace.
enum M {
    Dig,
    Wide,
    Zz,
    Ys,
    Zs,
    Tilde,
    /// a terminal of weedle's: whitespace around it is read
    T(&'static str),
    Opt(Box<M>),
    Many(Box<M>),
    Tup(Vec<M>),
    Sep(Box<M>, Box<M>, &'static str),
    Sep1(Box<M>, Box<M>, &'static str),
    Wrap(&'static str, &'static str, Box<M>, &'static str),
}

impl M {
    fn run(&self, s: &str, at: usize) -> Option<(T, usize)> {
        let b = &s[at..];
        match self {
            M::Dig => b.chars().next().filter(|c| c.is_ascii_digit()).map(|c| (leaf(&c.to_string()), at + 1)),
            M::Zs => {
                let n = b.bytes().take_while(|c| *c == b'z').count();
                (n > 0).then(|| (leaf(&"z".repeat(n)), at + n))
            }
            M::Wide => b.chars().next().filter(|c| c.is_ascii_uppercase()).map(|c| (leaf(&c.to_string()), at + 1)),
            M::Zz => {
                let n = b.bytes().take_while(|c| *c == b'z').count();
                (n > 1).then(|| (leaf("zz"), at + n))
            }
            M::Ys => {
                let n = b.bytes().take_while(|c| *c == b'y').count();
                (n > 0).then(|| (leaf(&b[..n]), at + n))
            }
            M::Tilde => b.starts_with('~').then(|| (leaf("~"), at + 1)),
            M::T(t) => {
                let l = trivia_len(b);
                b[l..].starts_with(t).then(|| {
                    let e = l + t.len();
                    (leaf(t), at + e + trivia_len(&b[e..]))
                })
            }
            M::Opt(m) => Some(m.run(s, at).unwrap_or_else(|| (none(), at))),
            M::Many(m) => {
                let (mut v, mut p) = (vec![], at);
                while let Some((t, q)) = m.run(s, p) {
                    v.push(t);
                    p = q;
                }
                Some((list(None, v), p))
            }
            M::Tup(ms) => {
                let (mut v, mut p) = (vec![], at);
                for m in ms {
                    let (t, q) = m.run(s, p)?;
                    v.push(t);
                    p = q;
                }
                Some((node("tuple", v), p))
            }
            M::Sep(m, sep, sp) | M::Sep1(m, sep, sp) => {
                let (mut v, mut p) = (vec![], at);
                if let Some((t, q)) = m.run(s, p) {
                    v.push(t);
                    p = q;
                    while let Some((t, q)) = sep.run(s, p).and_then(|(_, q)| m.run(s, q)) {
                        v.push(t);
                        p = q;
                    }
                }
                if let M::Sep1(..) = self {
                    if v.is_empty() {
                        return None;
                    }
                    if let Some((_, q)) = sep.run(s, p) {
                        p = q;
                    }
                }
                Some((list(Some(sp), v), p))
            }
            M::Wrap(n, o, m, c) => {
                let (a, p) = M::T(o).run(s, at)?;
                let (b, p) = m.run(s, p)?;
                let (c, p) = M::T(c).run(s, p)?;
                Some((node(n, vec![a, b, c]), p))
            }
        }
    }
}

fn model(name: &str) -> M {
    let b = |m: M| Box::new(m);
    let sep = |m: M| M::Sep(Box::new(m), Box::new(M::Tilde), "~");
    let sep1 = |m: M| M::Sep1(Box::new(m), Box::new(M::Tilde), "~");
    match name {
        "c.OptDig" => M::Opt(b(M::Dig)),
        "c.OptZs" => M::Opt(b(M::Zs)),
        "c.VecDig" => M::Many(b(M::Dig)),
        "c.VecZs" => M::Many(b(M::Zs)),
        "c.BoxDig" => M::Dig,
        "c.Pair" => M::Tup(vec![M::Dig, M::Zs]),
        "c.Triple" => M::Tup(vec![M::Dig, M::Tilde, M::Zs]),
        "c.PunctDig" => sep(M::Dig),
        "c.PunctZs" => sep(M::Zs),
        "c.PunctDigComma" => M::Sep(b(M::Dig), b(M::T(",")), ","),
        "c.Punct1Dig" => sep1(M::Dig),
        "c.Punct1Zs" => sep1(M::Zs),
        "c.Punct1PairComma" => M::Sep1(b(M::Tup(vec![M::Dig, M::Zs])), b(M::T(",")), ","),
        "c.VecPair" => M::Many(b(M::Tup(vec![M::Dig, M::Zs]))),
        "c.ParenDig" => M::Wrap("Parenthesized", "(", b(M::Dig), ")"),
        "c.ParenVec" => M::Wrap("Parenthesized", "(", b(M::Many(b(M::Dig))), ")"),
        "c.BracketPunct" => M::Wrap("Bracketed", "[", b(sep(M::Zs)), "]"),
        "c.BracedPunct1" => M::Wrap("Braced", "{", b(sep1(M::Dig)), "}"),
        "c.GenericsOpt" => M::Wrap("Generics", "<", b(M::Opt(b(M::Zs))), ">"),
        "c.OptPair" => M::Opt(b(M::Tup(vec![M::Dig, M::Zs]))),
        "c.PunctVecPair" => sep(M::Tup(vec![M::Dig, M::Dig])),
        "c.OptTilde" => M::Opt(b(M::Tilde)),
        "c.VecTilde" => M::Many(b(M::Tilde)),
        "c.BoxTilde" => M::Tilde,
        "c.PunctTildeComma" => M::Sep(b(M::Tilde), b(M::T(",")), ","),
        "c.Punct1TildeComma" => M::Sep1(b(M::Tilde), b(M::T(",")), ","),
        "c.PunctTildeTilde" => M::Sep(b(M::Dig), b(M::Zz), "zz"),
        "c.Punct1Zz" => M::Sep1(b(M::Dig), b(M::Zz), "zz"),
        "c.PunctTermTerm" => M::Sep(b(M::T("<")), b(M::T(",")), ","),
        "c.Punct1TermTerm" => M::Sep1(b(M::T("<")), b(M::T(",")), ","),
        "c.VecTerm" => M::Many(b(M::T(","))),
        "c.OptTerm" => M::Opt(b(M::T(","))),
        "c.VecWide" => M::Many(b(M::Wide)),
        "c.PunctWide" => sep(M::Wide),
        "c.Punct1Wide" => sep1(M::Wide),
        "c.OptWide" => M::Opt(b(M::Wide)),
        "c.BoxBoxWide" => M::Wide,
        "c.PunctBox" => sep(M::Dig),
        "c.Punct1Box" => sep1(M::Dig),
        "c.VecBox" => M::Many(b(M::Dig)),
        "c.PunctYs" => sep(M::Ys),
        "c.Punct1Ys" => M::Sep1(b(M::Ys), b(M::T(",")), ","),
        "c.VecPairYs" => M::Many(b(M::Tup(vec![M::Ys, M::Dig]))),
        "c.TripleOpt" => M::Tup(vec![M::Opt(b(M::Dig)), M::Zs, M::Opt(b(M::Tilde))]),
        "c.TripleVec" => M::Tup(vec![M::Many(b(M::Dig)), M::Opt(b(M::Tilde)), M::Many(b(M::Zs))]),
        "c.PairOpt" => M::Tup(vec![M::Opt(b(M::Zs)), M::Opt(b(M::Dig))]),
        "c.PairNested" => M::Tup(vec![M::Tup(vec![M::Dig, M::Zs]), M::Tup(vec![M::Tilde, M::Opt(b(M::Dig))])]),
        "c.OptVec" => M::Opt(b(M::Many(b(M::Dig)))),
        "c.OptParen" => M::Opt(b(M::Wrap("Parenthesized", "(", b(M::Dig), ")"))),
        "c.VecGenerics" => M::Many(b(M::Wrap("Generics", "<", b(M::Dig), ">"))),
        "c.BracedBraced" => M::Wrap("Braced", "{", b(M::Wrap("Braced", "{", b(M::Many(b(M::Dig))), "}")), "}"),
        "c.ParenTilde" => M::Wrap("Parenthesized", "(", b(M::Tilde), ")"),
        "c.BracketWide" => M::Wrap("Bracketed", "[", b(M::Many(b(M::Wide))), "]"),
        "c.PunctParenPunct" => M::Sep(b(M::Wrap("Parenthesized", "(", b(sep(M::Dig)), ")")), b(M::T(",")), ","),
        "c.Punct1Bracket" => sep1(M::Wrap("Bracketed", "[", b(M::Many(b(M::Zs))), "]")),
        "c.PunctTriple" => sep(M::Tup(vec![M::Dig, M::Tilde, M::Dig])),
        "c.Punct1Triple" => sep1(M::Tup(vec![M::Dig, M::Tilde, M::Dig])),
        "c.GenericsBox" => M::Wrap("Generics", "<", b(M::Tup(vec![M::Dig, M::Tilde, M::Zs])), ">"),
        _ => panic!("no model {}", name),
    }
}

fn block(w: &str, m: M) -> M {
    let b = Box::new;
    match w {
        "O" => M::Opt(b(m)),
        "B" => m,
        "V" => M::Many(b(m)),
        "Pa" => M::Wrap("Parenthesized", "(", b(m), ")"),
        "Bk" => M::Wrap("Bracketed", "[", b(m), "]"),
        "Bc" => M::Wrap("Braced", "{", b(m), "}"),
        "G" => M::Wrap("Generics", "<", b(m), ">"),
        "P" => M::Sep(b(m), b(M::Tilde), "~"),
        "N" => M::Sep1(b(m), b(M::Tilde), "~"),
        "Pc" => M::Sep(b(m), b(M::T(",")), ","),
        "Nc" => M::Sep1(b(m), b(M::T(",")), ","),
        "L" => M::Tup(vec![m, M::Zs]),
        "R" => M::Tup(vec![M::Dig, m]),
        "M3" => M::Tup(vec![M::Zs, m, M::Tilde]),
        "F3" => M::Tup(vec![m, M::Tilde, M::Dig]),
        "E3" => M::Tup(vec![M::Dig, M::Zs, m]),
        "Dig" => M::Dig,
        "Zs" => M::Zs,
        _ => M::Tilde,
    }
}

impl M {
    /// may take nothing
    fn empty(&self) -> bool {
        match self {
            M::Opt(_) | M::Many(_) | M::Sep(..) => true,
            M::Tup(v) => v.iter().all(|m| m.empty()),
            _ => false,
        }
    }
    /// no list of elements that may take nothing: what such a list gives is documented nowhere
    fn sound(&self) -> bool {
        match self {
            M::Many(m) | M::Sep(m, ..) | M::Sep1(m, ..) => !m.empty() && m.sound(),
            M::Opt(m) | M::Wrap(_, _, m, _) => m.sound(),
            M::Tup(v) => v.iter().all(|m| m.sound()),
            _ => true,
        }
    }
    fn write(&self, s: &mut Src, o: &mut String) {
        match self {
            M::Dig => o.push(*s.pick(&['1', '7', '0'])),
            M::Wide => o.push('A'),
            M::Zz => o.push_str("zz"),
            M::Ys => o.push('y'),
            M::Zs => o.push_str(*s.pick(&["z", "zz"])),
            M::Tilde => o.push('~'),
            M::T(t) => {
                let gap = ["", "", "", " ", "/**/", "//\n", "\r\n"];
                o.push_str(*s.pick(&gap));
                o.push_str(t);
                o.push_str(*s.pick(&gap));
            }
            M::Opt(m) => {
                if s.pct(60) {
                    m.write(s, o)
                }
            }
            M::Many(m) => {
                for _ in 0..s.count(2, 12) {
                    m.write(s, o)
                }
            }
            M::Tup(v) => v.iter().for_each(|m| m.write(s, o)),
            M::Sep(m, sep, _) | M::Sep1(m, sep, _) => {
                let n = s.count(2, 12);
                for i in 0..n {
                    if i > 0 {
                        sep.write(s, o);
                    }
                    m.write(s, o);
                }
                if s.pct(25) {
                    sep.write(s, o);
                }
            }
            M::Wrap(_, a, m, z) => {
                M::T(a).write(s, o);
                m.write(s, o);
                M::T(z).write(s, o);
            }
        }
    }
}

fn composed() -> &'static Vec<(String, M, entries::Fun)> {
    static C: std::sync::OnceLock<Vec<(String, M, entries::Fun)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        entries::composed()
            .iter()
            .map(|(n, f)| (n.join("."), block(n[0], block(n[1], block(n[2], M::Tilde))), *f))
            .filter(|(_, m, _)| m.sound())
            .collect()
    })
}

fn judge_composed(i: usize, s: &str) -> Verdict {
    let Some((n, m, f)) = composed().get(i) else { return pass(false, "not a case") };
    match (m.run(s, 0), f(s)) {
        (Some((t, rest)), Out::Ok { tree, rest: got }) if t == tree && rest == got => pass(rest > 0, "block in a block"),
        (None, Out::Err { .. }) => pass(s.len() > 1, "block in a block, refused"),
        (e, o) => Verdict::Fail(format!(
            "{}: expected {}\n  actual {}",
            n,
            e.map_or("refused".into(), |(t, r)| format!("accepted, rest at {}: {}", r, t.show(900))),
            o.show()
        )),
    }
}

fn judge_blocks(c: &Case) -> Verdict {
    let s = &c.texts[0];
    if let Some(n) = c.kind.strip_prefix("comp:") {
        return judge_composed(n.parse().unwrap_or(usize::MAX), s);
    }
    if c.kind != "custom" {
        return judge(c);
    }
    let mut read = false;
    for (n, f) in entries::CUSTOM {
        let e = model(n).run(s, 0);
        match (e, f(s)) {
            (Some((t, rest)), Out::Ok { tree, rest: got }) if t == tree && rest == got => read |= rest > 0,
            (None, Out::Err { .. }) => {}
            (e, o) => {
                return Verdict::Fail(format!(
                    "{}: expected {}\n  actual {}",
                    n,
                    e.map_or("refused".into(), |(t, r)| format!("accepted, rest at {}: {}", r, t.show(900))),
                    o.show()
                ))
            }
        }
    }
    pass(read, if read { "elements of our own" } else { "nothing read" })
}

const CUSTOM_CHARS: &[&str] = &["1", "7", "z", "~", ",", "(", ")", "[", "]", "{", "}", "<", ">", " ", "x", "A", "y", "\r", "\t", "\n", "//\n", "/**/"];
const GEN_WORDS: &[&str] = &["a", "or", "\"s\"", ",", ";", "(", ")", "[", "]", "{", "}", "<", ">", "long", "readonly", "= 1", "getter", "?", "setter", "5"];

pub const C17: Prop = Prop {
    id: "C17",
    rule: "35 instances of Option, Box, Vec, tuples, brackets and both separated lists over weedle's types, 58 over element and separator types of our own with a character-level model, and every block in every block (16 x 16, 3 elements); derivations with edits and continuations, exhaustive short token and character sequences, lists up to 65536 long; non-trivial: something read, or refused with at least 2 tokens present",
    gen: |s| {
        if s.pct(30) {
            let i = s.below(composed().len() as u32) as usize;
            let mut t = String::new();
            composed()[i].1.write(s, &mut t);
            for _ in 0..s.below(3) {
                let mut at = s.below(t.len() as u32 + 1) as usize;
                while !t.is_char_boundary(at) {
                    at -= 1;
                }
                match s.below(3) {
                    0 if at < t.len() => {
                        t.remove(at);
                    }
                    1 => t.truncate(at),
                    _ => t.insert_str(at, *s.pick(CUSTOM_CHARS)),
                }
            }
            return Case::one(&format!("comp:{}", i), t);
        }
        if s.pct(35) {
            let w: &[u32] = &[6, 3, 6, 5, 3, 2, 2, 1, 1, 1, 1, 1, 1, 2, 1, 3, 3, 1, 1, 1, 1, 1];
            let n = s.count(8, 30);
            let mut t: String = (0..n).map(|_| CUSTOM_CHARS[s.weighted(w)]).collect();
            if s.permille(2) {
                let n = s.log(1 << 12) as usize;
                let x = *s.pick(&["1", "z~", "1~", "1z", "1,", "1z , ", "~", "~,", "A", "A~", "<,", ",", "<1>", "1zz", "y~", "y,"]);
                t = x.repeat(n);
            }
            return Case::one("custom", t);
        }
        let all = entries::GENERICS;
        let name: &'static str = all[s.below(all.len() as u32) as usize].0;
        let p = Profile { mean: 3, budget: 60, keyword: 3, type_depth: 2, big: 4, big_max: 1 << 11, ..BASE };
        let (mut toks, _, _) = derive(s, &p, name);
        if s.pct(40) {
            let n = toks.len();
            mutate_tokens(s, &mut toks, 0, n);
        }
        if s.pct(30) {
            for _ in 0..1 + s.count(1, 4) {
                let w = *s.pick(GEN_WORDS);
                toks.extend(toks_of(w));
            }
        }
        let ws = any_ws(s);
        let mut t = render(s, &toks, ws);
        if s.pct(40) {
            t.push_str(&continuation(s));
        }
        Case::one(&format!("rule:{}", name), t)
    },
    eval: judge_blocks,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        sh.sequences(CUSTOM_CHARS.len(), 0, if thorough { 5 } else { 4 }, |sh, ix| {
            sh.go(|| Case::one("custom", ix.iter().map(|i| CUSTOM_CHARS[*i]).collect()));
        });
        let few = ["1", "z", "~", ",", " "];
        for (i, (n, _, _)) in composed().iter().enumerate() {
            let marks: &[&str] = if n.contains("Pa") { &["(", ")"] } else { &["<", ">"] };
            let marks2: &[&str] = if n.contains("Bk") { &["[", "]"] } else { &["{", "}"] };
            let a: Vec<&str> = few.iter().chain(marks).chain(marks2).copied().collect();
            sh.sequences(a.len(), 0, if thorough { 6 } else { 4 }, |sh, ix| {
                sh.go(|| Case::one(&format!("comp:{}", i), ix.iter().map(|i| a[*i]).collect()));
            });
        }
        sh.sequences(6, 5, if thorough { 9 } else { 7 }, |sh, ix| {
            sh.go(|| Case::one("custom", ix.iter().map(|i| CUSTOM_CHARS[*i]).collect()));
        });
        sh.sequences(GEN_WORDS.len(), 0, if thorough { 4 } else { 3 }, |sh, ix| {
            let t = words(GEN_WORDS, ix);
            for (n, _) in entries::GENERICS {
                sh.go(|| Case::one(&format!("rule:{}", n), t.clone()));
            }
        });
        for n in ladder(1 << 12) {
            for x in ["1", "z~", "1~", "1z", "1,", "~", "~,", "A", "A~", "<,", ",", "<1>", "1zz", "y~", "y,", "y1", "[z]~", "(1),", "1~1~"] {
                sh.go(|| Case::one("custom", x.repeat(n)));
                sh.go(|| Case::one("custom", format!("{}{}", x.repeat(n), x.trim_end_matches(['~', ',']))));
            }
        }
        for n in ladder(1 << 16) {
            for (r, a, sep) in [
                ("g.VecIdent", "a", " "), ("g.VecStr", "\"\"", ""), ("g.PunctIdentComma", "a", ","), ("g.PunctStrSemi", "\"x\"", " ; "), ("g.PunctIdentOr", "b", " or "),
                ("g.Punct1IdentComma", "c", ","), ("g.Punct1TypeSemi", "long", ";"), ("g.VecTup", "a \"s\"", " "), ("g.PunctArgComma", "long a", ","), ("g.Punct1StrComma", "\"x\"", ","),
            ] {
                for tail in ["", " ,", " ;", " ]"] {
                    sh.go(|| Case::one(&format!("rule:{}", r), format!("{}{}", vec![a; n].join(sep), tail)));
                }
            }
        }
    },
    quick: 1_500_000,
    thorough: 30_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- C18

fn is_word(sp: &str) -> bool {
    sp.bytes().last().map_or(false, |b| b.is_ascii_alphabetic())
}

fn term_oracle(sp: &str, s: &str) -> Option<usize> {
    let l = trivia_len(s);
    let r = s[l..].strip_prefix(sp)?;
    if is_word(sp) && r.bytes().next().map_or(false, is_word_byte) {
        return None;
    }
    let e = l + sp.len();
    Some(e + trivia_len(&s[e..]))
}

fn all_terms() -> &'static Vec<(&'static str, Fun, Fun)> {
    static T: std::sync::OnceLock<Vec<(&'static str, Fun, Fun)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = entries::terms();
        v.push(entries::neg_infinity());
        v
    })
}

fn judge_terms(c: &Case) -> Verdict {
    let s = &c.texts[0];
    let mut matched = 0;
    for (sp, f, g) in all_terms() {
        let e = term_oracle(sp, s);
        for (how, f) in [("the type", f), ("term!", g)] {
            match (e, f(s)) {
                (Some(r), Out::Ok { rest, tree }) if r == rest && *tree == *leaf(sp) => matched += 1,
                (None, Out::Err { .. }) => {}
                (e, o) => {
                    return Verdict::Fail(format!(
                        "terminal {:?} ({}): expected {}\n  actual {}",
                        sp,
                        how,
                        e.map_or("refused".into(), |r| format!("accepted, rest at {}", r)),
                        o.show()
                    ))
                }
            }
        }
    }
    pass(s.len() > 1, if matched > 0 { "a terminal matched" } else { "no terminal matched" })
}

pub const C18: Prop = Prop {
    id: "C18",
    rule: "all 83 terminals, through their type and through term!, on each text: every spelling with every one-character prefix and suffix (U+0000..U+02FF and others), case changes, cuts, pairs of spellings, and random words with whitespace and comments around; non-trivial: more than one byte",
    gen: |s| {
        let mut t = if s.pct(50) { trivia(s, 1) } else { String::new() };
        let all = all_terms();
        match s.below(5) {
            0 => t.push_str(all[s.below(all.len() as u32) as usize].0),
            1 => t.push_str(&kwish_word(s)),
            2 => t.push_str(&vocab(s)),
            3 => {
                let w = all[s.below(all.len() as u32) as usize].0;
                let mut w = w.to_string();
                mutate_text(s, &mut w);
                t.push_str(&w);
            }
            _ => {
                t.push_str(all[s.below(all.len() as u32) as usize].0);
                t.push_str(all[s.below(all.len() as u32) as usize].0);
            }
        }
        if s.pct(40) {
            t.push_str(&trivia(s, 1));
        }
        if s.pct(60) {
            t.push_str(&continuation(s));
        }
        Case::one("terms", t)
    },
    eval: judge_terms,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        let sps: Vec<&str> = all_terms().iter().map(|t| t.0).collect();
        let mut chars: Vec<char> = (0..0x300u32).filter_map(char::from_u32).collect();
        chars.extend("\u{2028}\u{2029}\u{feff}\u{200b}\u{3000}漢ｅＡ🦀K\u{10ffff}".chars());
        let one = |t: String| Case::one("terms", t);
        for a in &sps {
            for c in &chars {
                sh.go(|| one(format!("{}{}", a, c)));
                if thorough || *c < '\u{80}' {
                    sh.go(|| one(format!("{}{}", c, a)));
                    sh.go(|| one(format!("{}{} x", a, c)));
                    sh.go(|| one(format!(" {} {}", a, c)));
                }
            }
            for b in &sps {
                sh.go(|| one(format!("{}{}", a, b)));
                sh.go(|| one(format!("{} {}", a, b)));
                sh.go(|| one(format!("{}/**/{}", a, b)));
            }
            for i in 0..=a.len() {
                sh.go(|| one(a[..i].to_string()));
                sh.go(|| one(a[i..].to_string()));
                sh.go(|| one(format!("{} {}", &a[..i], &a[i..])));
                sh.go(|| one(format!("{}/**/{}", &a[..i], &a[i..])));
                if i < a.len() {
                    let mut b = a.as_bytes().to_vec();
                    b[i] ^= 0x20;
                    sh.go(|| one(String::from_utf8(b).unwrap()));
                    sh.go(|| one(format!("{}{}", &a[..i], &a[i + 1..])));
                }
            }
            sh.go(|| one(a.to_uppercase()));
            sh.go(|| one(a.to_lowercase()));
            sh.go(|| one(format!("_{}", a)));
            for n in ladder(5000) {
                sh.go(|| one(format!("{}{}{}x", " ".repeat(n), a, "\t".repeat(n))));
                if n < 300 {
                    sh.go(|| one(format!("/*{}*/{}//{}\n;", "x".repeat(n), a, "y".repeat(n))));
                }
            }
        }
    },
    quick: 600_000,
    thorough: 4_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: &["the table of terminals in harness/src/tree.rs and entries.rs lists the documented spelling of each type"],
};
