//! C14 value semantics, C15 work, C16 purity, C19 independence of neighbours.

use super::slots::ASSUME;
use super::whole::good_document;
use super::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use weedle::Parse;

// ---------------------------------------------------------------- C14

/// keeps every byte fed to it
#[derive(Default, PartialEq)]
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

fn bytes<X: Hash>(x: &X) -> Bytes {
    let mut h = Bytes::default();
    x.hash(&mut h);
    h
}

pub fn laws<'a, X>(texts: &'a [String]) -> Result<(usize, usize), String>
where
    X: Parse<'a> + ToTree + Ord + Hash + Clone + std::fmt::Debug,
{
    let mut vals: Vec<(&'a str, X, T)> = vec![];
    for s in texts {
        if let Ok((_, x)) = inside(|| X::parse(s)) {
            CHECK_FROM.with(|c| c.set(true));
            FROM_BAD.with(|c| c.set(None));
            let t = x.t();
            CHECK_FROM.with(|c| c.set(false));
            if let Some(b) = FROM_BAD.with(|c| c.get()) {
                return Err(format!("{:?}: converting its content into {} gives something else", s, b));
            }
            vals.push((s, x, t));
        }
    }
    let mut equal = 0;
    for (s, x, t) in &vals {
        let c = x.clone();
        if c.t() != *t || c != *x || c.cmp(x) != Ordering::Equal || bytes(&c) != bytes(x) {
            return Err(format!("{:?}: the clone differs from its original", s));
        }
        #[allow(clippy::eq_op)]
        if x != x || x.cmp(x) != Ordering::Equal {
            return Err(format!("{:?} is not equal to itself", s));
        }
    }
    // what `{:?}` and `{:#?}` show; long values only in part of the cases, because that is slow
    let show: Vec<Option<(String, String)>> = vals.iter().map(|(s, x, _)| (s.len() < 4000).then(|| (format!("{:?}", x), if s.len() < 300 { format!("{:#?}", x) } else { String::new() }))).collect();
    for (i, (s, x, t)) in vals.iter().enumerate() {
        for (j, (r, y, u)) in vals.iter().enumerate().skip(i + 1) {
            if let (Some(a), Some(b)) = (&show[i], &show[j]) {
                if (a.0 == b.0) != (t == u) || (!a.1.is_empty() && !b.1.is_empty() && (a.1 == b.1) != (t == u)) {
                    return Err(format!("{:?} and {:?}: trees are {}, `{{:?}}` shows otherwise", s, r, if t == u { "the same" } else { "different" }));
                }
            }
            let (e, o, p) = (x == y, x.cmp(y), y.cmp(x));
            if e != (t == u) || (y == x) != e || (x != y) == e {
                return Err(format!("{:?} and {:?}: trees are {}, `==` says {}", s, r, if t == u { "the same" } else { "different" }, e));
            }
            if (o == Ordering::Equal) != e || o != p.reverse() {
                return Err(format!("{:?} and {:?}: equal {}, cmp {:?}, reversed {:?}", s, r, e, o, p));
            }
            let (hi, lo) = (x.max(y), x.min(y));
            if (*hi != *x && *hi != *y) || *lo > *hi || (o == Ordering::Less && (*hi != *y || *lo != *x)) {
                return Err(format!("{:?} and {:?}: `max` and `min` do not follow the order", s, r));
            }
            let mut z = y.clone();
            z.clone_from(x);
            if z != *x || z.t() != *t {
                return Err(format!("{:?} cloned into {:?} differs from its original", s, r));
            }
            if (x <= y) != (o != Ordering::Greater) || (x > y) != (o == Ordering::Greater) || x.partial_cmp(y) != Some(o) || (x < y) != (o == Ordering::Less) || (x >= y) != (o != Ordering::Less) {
                return Err(format!("{:?} and {:?}: cmp {:?}, partial_cmp {:?}", s, r, o, x.partial_cmp(y)));
            }
            if e {
                equal += 1;
                if bytes(x) != bytes(y) {
                    return Err(format!("{:?} and {:?} are equal and hash differently", s, r));
                }
            }
        }
    }
    for (r, x, _) in &vals {
        for (s, y, _) in &vals {
            for (t, z, _) in &vals {
                if x <= y && y <= z && !(x <= z) {
                    return Err(format!("not transitive: {:?} <= {:?} <= {:?}", r, s, t));
                }
            }
        }
    }
    Ok((vals.len(), equal))
}

fn laws_table() -> impl Iterator<Item = &'static (&'static str, entries::Laws)> {
    entries::LAWS.iter().chain(entries::LIT_LAWS).chain(entries::GEN_LAWS).chain(entries::TERM_LAWS)
}

fn judge_values(c: &Case) -> Verdict {
    let t = &c.texts;
    let Some(f) = laws_table().find(|l| l.0 == c.kind).map(|l| l.1) else { return pass(false, "not a case") };
    let r = std::panic::catch_unwind(|| f(t));
    match r {
        Ok(Ok((n, e))) => pass(
            n >= 2,
            if n < 2 {
                "fewer than two values"
            } else if e > 0 {
                "some equal"
            } else {
                "all different"
            },
        ),
        Ok(Err(m)) => Verdict::Fail(m),
        Err(_) => pass(false, "parse panicked (C10)"),
    }
}

/// One character of a word replaced by another of its kind.
fn one_changed(s: &mut Src, w: &str) -> String {
    let mut c: Vec<char> = w.chars().collect();
    if !c.is_empty() {
        let n = c.len() as u32;
        let i = n - 1 - s.below(n);
        changed(&mut c[i as usize]);
    }
    c.into_iter().collect()
}
fn changed(c: &mut char) {
    *c = match *c {
        'a'..='y' | 'A'..='Y' | '0'..='6' => (*c as u8 + 1) as char,
        'z' => 'a',
        'Z' => 'A',
        '7' => '1',
        '8' => '9',
        '9' => '8',
        c => c,
    }
}

/// Texts of the same length as `t`, each with one letter or digit changed, late and early.
fn one_off(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let ix: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_alphanumeric()).collect();
    let mut v = vec![];
    for k in [ix.len(), ix.len() - ix.len() / 16, ix.len() * 3 / 4, ix.len() / 2 + 1] {
        if k > 0 && k <= ix.len() {
            let mut d = c.clone();
            changed(&mut d[ix[k - 1]]);
            v.push(d.into_iter().collect());
        }
    }
    v
}

/// Another spelling close to a token: such values must still differ.
fn close(s: &mut Src, w: &str) -> String {
    let b = w.as_bytes();
    if b[0] == b'"' {
        let m = &w[1..w.len() - 1];
        return match s.below(9) {
            0 => format!("\"{} \"", m),
            1 => format!("\" {}\"", m),
            2 => format!("\"{}\"", m.to_uppercase()),
            3 => format!("\"{}\"", m.to_lowercase()),
            4 => format!("\"{}{}\"", m, m),
            5 => format!("\"{}\"", m.chars().rev().collect::<String>()),
            6 => format!("\"{}\\n\"", m),
            _ => format!("\"{}\"", one_changed(s, m)),
        };
    }
    if b[0].is_ascii_digit() || b[0] == b'.' || (b[0] == b'-' && w != "-Infinity") {
        let (m, d) = w.strip_prefix('-').map_or(("", w), |d| ("-", d));
        return match s.below(11) {
            0 => format!("{}0", w),
            1 => format!("{}0{}", m, d),
            2 => if m.is_empty() { format!("-{}", d) } else { d.to_string() },
            3 => w.to_uppercase(),
            4 => w.to_lowercase(),
            5 => format!("{}.0", w),
            6 => format!("{}e0", w),
            7 => format!("{}0x{}", m, d),
            8 | 9 => one_changed(s, w),
            _ => format!("{}.", w),
        };
    }
    if b[0].is_ascii_alphabetic() || b[0] == b'_' {
        return match s.below(8) {
            0 => format!("{}_", w),
            6 | 7 => one_changed(s, w),
            1 => w.to_uppercase(),
            2 => w.to_lowercase(),
            3 => format!("{}0", w),
            4 => format!("{}-", w),
            _ => w[..w.len() - 1].to_string() + "z",
        };
    }
    w.to_string()
}

pub const C14: Prop = Prop {
    id: "C14",
    rule: "groups of 2 to 5 texts for each grammar type (and literals, building blocks and terminals on their own): a derivation, the same tokens with other whitespace, escaped names, tokens replaced by close spellings, and small edits of it; equality against the neutral trees, hashing, ordering laws on all pairs and triples (with max, min and every comparison operator), clones, conversions, Debug output; all pairs of sample documents and literals; long values that differ in one late character; non-trivial: at least two texts were accepted",
    gen: |s| {
        let k = s.below((entries::LAWS.len() + entries::LIT_LAWS.len()) as u32) as usize;
        let rule = entries::LAWS.iter().chain(entries::LIT_LAWS).nth(k).unwrap().0;
        let p = Profile { mean: 1, budget: 40, type_depth: 2, big: 30, big_max: 300, ..BASE };
        let (toks, _, _) = derive(s, &p, rule);
        let p = Profile { big: 0, ..p };
        let mut texts = vec![render(s, &toks, Ws::Canon)];
        for _ in 0..1 + s.count(2, 4) {
            let mut u = toks.clone();
            match s.below(6) {
                0 => {}
                1 => {
                    // escape or unescape a name
                    if !u.is_empty() {
                        let i = s.below(u.len() as u32) as usize;
                        let w = u[i].text.clone();
                        if let Some(x) = w.strip_prefix('_') {
                            u[i].text = x.into();
                        } else if w.as_bytes()[0].is_ascii_alphabetic() {
                            u[i].text = format!("_{}", w);
                        }
                    }
                }
                2 => u = derive(s, &p, rule).0,
                3 => {
                    for _ in 0..1 + s.below(2) {
                        if !u.is_empty() {
                            let i = s.below(u.len() as u32) as usize;
                            u[i].text = close(s, &u[i].text.clone());
                        }
                    }
                }
                _ => {
                    let n = u.len();
                    mutate_tokens(s, &mut u, 0, n);
                }
            }
            let ws = [Ws::Canon, Ws::Min, Ws::Light][s.below(3) as usize];
            texts.push(render(s, &u, ws));
        }
        Case { kind: rule.into(), texts }
    },
    eval: judge_values,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        let mut pools: Vec<(&str, Vec<String>)> = vec![("Definitions", DOCS.iter().map(|d| d.to_string()).collect())];
        for (ri, (rule, _)) in entries::LAWS.iter().chain(entries::LIT_LAWS).enumerate() {
            let mut v: Vec<String> = vec![];
            for k in 0..if thorough { 120 } else { 36 } {
                let mut s = Src::random(99_000 + (ri * 1000 + k) as u64);
                let p = Profile { mean: 1, budget: 10, type_depth: 1, big: 0, nasty_str: 0, attr: 5, ..BASE };
                v.push(join(&derive(&mut s, &p, rule).0));
            }
            pools.push((rule, v));
        }
        pools.push(("Type", ["any", "long", "long?", "unsigned long", "long long", "short", "Foo", "_Foo", "Foo?", "(A or B)", "(B or A)", "(A)", "(A or B)?", "sequence<long>", "FrozenArray<long>", "Promise<long>", "record<A,B>", "record<DOMString,B>", "octet", "byte", "float", "double", "unrestricted float", "_any", "_long", "sequence<long>?", "sequence<long?>"].map(String::from).to_vec()));
        pools.push(("DefaultValue", ["0", "00", "-0", "0x0", "0X0", "1", "01", "1.0", "1.", "1e0", "\"\"", "\"a\"", "\"A\"", "true", "false", "null", "NaN", "Infinity", "-Infinity", "[]", "{}", "[ ]"].map(String::from).to_vec()));
        pools.push(("Identifier", ["a", "_a", "A", "a_", "a-", "ab", "b", "a0", "_A", "aa"].map(String::from).to_vec()));
        let numbers = ["0", "00", "-0", "07", "7", "-7", "17", "017", "10", "9", "100", "99", "-10", "-9", "0x0", "0X0", "-0x0", "0xF", "0xf", "0x10", "0x0F", "0xFF", "0x100", "-0xF", "-0x10", "1.0", "1.", "1.00", "1.5", "1.50", "10.0", "9.5", ".5", "0.5", "-.5", "1e3", "1E3", "1e+3", "1e-3", "1e03", "10e2", "NaN", "Infinity", "-Infinity"];
        for (rule, _) in entries::LIT_LAWS.iter().chain(entries::LAWS.iter().filter(|l| l.0 == "ConstValue" || l.0 == "DefaultValue")) {
            pools.push((rule, numbers.map(String::from).to_vec()));
        }
        // the building blocks
        let bits = ["a", "b", "_a", "a b", "a a", "b a", "a b c", "a,b", "b,a", "a,b,", "a,a", "a , b", "a or b", "b or a", "a;b", "long", "long a", "short", "unsigned long", "long long", "float", "unrestricted double", "boolean", "boolean?", "a?", "long?", "float ?", "\"a\"", "\"b\"", "\"\"", "\"a\" \"b\"", "\"a\";\"b\"", "\"a\",\"b\"", "\"a\",", "a \"x\"", "a \"y\"", "b \"x\"", "a \"x\" b \"y\"", "a \"x\", b \"y\"", "(a)", "(b)", "()", "(a,b)", "(b,a)", "(a or b)", "(a or b)?", "(b or a)", "(a) (b)", "(a,b)(c)", "[\"a\"]", "[\"b\"]", "[\"a\";\"b\"]", "[\"a\"],[\"b\"]", "{a b}", "{b a}", "{}", "{a,b}", "{a,b,}", "<long>", "<short>", "<long or short>", "<a or b>", "sequence<a>", "sequence<a>?", "sequence<b>", "readonly a", "readonly a = 1", "a = 1", "a = 2", "long a, short b", "optional long a = 1", "getter", "getter, setter", "setter, getter", "any"];
        for (sp, _) in entries::TERM_LAWS {
            sh.go(|| Case { kind: sp.to_string(), texts: vec![sp.to_string(), format!(" {}", sp), format!("{} ;", sp), format!("/**/{}", sp)] });
        }
        for (rule, _) in entries::GEN_LAWS {
            pools.push((rule, bits.map(String::from).to_vec()));
        }
        // long values that differ in one place, or in length
        for k in super::whole::ALL_SCALES.iter().chain(super::whole::NEST_SCALES) {
            for n in ladder(if thorough { 5000 } else { 300 }) {
                sh.go(|| {
                    let t = scale(k, n);
                    let mut v = one_off(&t);
                    v.extend([t.clone(), format!(" {}", t), scale(k, n + 1)]);
                    Case { kind: "Definitions".into(), texts: v }
                });
            }
        }
        for n in ladder(if thorough { 1 << 16 } else { 1 << 12 }) {
            for (rule, a, b, c) in [
                ("Identifier", "a", "b-_7Zq", "e"), ("StringLit", "\"", "bé \\7Zq", "e\""), ("DecLit", "-1", "0987654321", "5"), ("HexLit", "0x1", "09afAF", "B"), ("OctLit", "0", "01234567", "5"), ("FloatValueLit", "1.", "0987654321", "5"), ("FloatValueLit", "1", "0987654321", "e5"),
                ("FloatValueLit", "1e-1", "0987654321", "5"), ("DefaultValue", "\"a", "x y", "5\""), ("ConstValue", "-1", "0987654321", "5"), ("Type", "a", "b-_7Zq", "e"), ("ExtendedAttribute", "a=a", "b-_7Zq", "e"),
            ] {
                if laws_table().any(|l| l.0 == rule) {
                    sh.go(|| {
                        let t: String = format!("{}{}{}", a, b.chars().cycle().take(n).collect::<String>(), c);
                        let mut v = one_off(&t);
                        v.extend([t.clone(), format!("{} ", t), format!("{}{}{}", a, b.chars().cycle().take(n + 1).collect::<String>(), c)]);
                        Case { kind: rule.into(), texts: v }
                    });
                }
            }
        }
        for (kind, v) in &pools {
            for a in v {
                for b in v {
                    sh.go(|| Case { kind: kind.to_string(), texts: vec![a.clone(), b.clone()] });
                }
            }
            for w in v.windows(5) {
                sh.go(|| Case { kind: kind.to_string(), texts: w.to_vec() });
            }
            if v.len() < 40 {
                sh.go(|| Case { kind: kind.to_string(), texts: v.clone() });
            }
        }
    },
    quick: 2_200_000,
    thorough: 15_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: &["the neutral tree (harness/src/tree.rs) holds every field of the public types"],
};

// ---------------------------------------------------------------- C15

/// Allocations and, as a second measure, CPU nanoseconds of parsing a text.
fn work(s: &str) -> u64 {
    work_ok(s).0
}

fn work_ok(s: &str) -> (u64, bool) {
    let a = allocs();
    let r = inside(|| std::panic::catch_unwind(|| weedle::parse(s).is_ok()));
    (allocs() - a, matches!(r, Ok(true)))
}

fn cpu_ns(s: &str) -> u64 {
    let t = thread_cpu_ns();
    let _ = inside(|| std::panic::catch_unwind(|| drop(weedle::parse(s))));
    thread_cpu_ns().saturating_sub(t)
}

/// wrappers for one level of nesting
pub const LEVELS: &[(&str, &str)] = &[
    ("sequence<", ">"), ("FrozenArray<", ">"), ("Promise<", ">"), ("record<DOMString,", ">"), ("record<", ",A>"), ("(", ")"), ("(A or ", ")"), ("(", " or A)"), ("(A or ", " or B)"),
    ("sequence<", ">?"), ("FrozenArray<", ">?"), ("record<Foo,", ">?"), ("record<", ",A>?"), ("(", " or A)?"), ("(A? or ", ")?"), ("([X] A or ", ")"), ("record<sequence<A>,", ">"), ("record<(A or B),", ">"), ("(sequence<A> or ", ")"),
    ("(A or [X] sequence<", ">)"), ("([X=Y, Z] FrozenArray<", ">? or B)"), ("(A or [X(long a)] record<A,", ">? or C)?"), ("([X=\"s\"] record<", ",A>)"), ("(", ")?"), ("(A or B or C or ", " or D or E)"),
    ("Promise<sequence<", ">?>"), ("record<sequence<", ">,A>"), ("record<(A or ", "),sequence<B>>"), ("sequence<(A or ", ")>?"), ("FrozenArray<(", " or A)?>"),
];
const CENTRES: &[&str] = &["long", "Foo", "any", "DOMString?", "undefined", "", "unsigned long long", "long long?", "Promise<undefined>", "(A or B)", "?", "[X] long"];
pub const WORK_CTX: &[(&str, &str)] = &[
    ("typedef ", " x;"), ("interface I { attribute ", " a; };"), ("interface I { ", " f(); };"), ("interface I { static ", " f(); };"), ("interface I { getter ", " (long a); };"),
    ("interface I { undefined f(", " a); };"), ("interface I { undefined f(", "... a); };"), ("interface I { undefined f(optional ", " a = null); };"), ("interface I { iterable<", ">; };"),
    ("interface I { iterable<", ", long>; };"), ("interface I { async iterable<", ">; };"), ("interface I { async iterable<long, ", ">(); };"), ("interface I { maplike<", ", A>; };"),
    ("interface I { readonly setlike<", ">; };"), ("interface I { constructor(", " a); };"), ("interface mixin M { ", " f(); };"), ("interface mixin M { readonly attribute ", " a; };"),
    ("namespace N { ", " f(); };"), ("namespace N { readonly attribute ", " a; };"), ("dictionary D { ", " a; };"), ("dictionary D { required ", " a; };"), ("callback C = ", " (long a);"),
    ("callback C = any (", " a, long b);"), ("[A(", " a)] typedef long x;"), ("interface I { const ", " x = 1; };"), ("partial dictionary D { ", " a = null; };"),
    ("typedef long x; partial interface I { ", " f(); };"), ("[A=B(", " x)] interface I {};"), ("callback interface I { attribute ", " x; };"),
];

pub fn nested(levels: &[usize], depth: usize, centre: &str) -> String {
    let mut o = String::new();
    for i in 0..depth {
        o.push_str(LEVELS[levels[i % levels.len()]].0);
    }
    o.push_str(centre);
    for i in (0..depth).rev() {
        o.push_str(LEVELS[levels[i % levels.len()]].1);
    }
    o
}

/// damage: 0 none, 1 cut before the closing part, 2 cut in the middle, 3 wrong closing mark at the very end, 4 the name dropped
fn damaged(t: String, centre_at: usize, damage: usize) -> String {
    match damage {
        1 => t[..centre_at].to_string(),
        2 => t[..centre_at + (t.len() - centre_at) / 2].to_string(),
        3 => t[..t.len() - 2].to_string(),
        4 => t.replace(" x;", " ;").replace(" a", " ").replace(" f(", " ("),
        _ => t,
    }
}

/// kind `nest:<ctx>:<damage>:<centre>`, texts: the level numbers
fn judge_work(c: &Case) -> Verdict {
    if c.kind == "growth" {
        return judge_growth(c);
    }
    let p: Vec<usize> = c.kind.split(':').skip(1).filter_map(|x| x.parse().ok()).collect();
    let levels: Vec<usize> = c.texts[0].split_whitespace().filter_map(|x| x.parse().ok()).filter(|l| *l < LEVELS.len()).collect();
    if p.len() != 3 || levels.is_empty() || p[0] >= WORK_CTX.len() || p[2] >= CENTRES.len() {
        return pass(false, "not a case");
    }
    let (pre, post) = WORK_CTX[p[0]];
    let text = |d: usize| {
        let n = nested(&levels, d, CENTRES[p[2]]);
        let open: usize = (0..d).map(|i| LEVELS[levels[i % levels.len()]].0.len()).sum();
        damaged(format!("{}{}{}", pre, n, post), pre.len() + open, p[1])
    };
    // every doubling may cost a small factor (a larger one if it makes the text malformed, so that
    // all alternatives are tried); blow-ups show long before the largest depth is tried
    let (first, mut ok) = work_ok(&text(3));
    let mut last = first;
    for d in [6, 12, 24, 48] {
        let (w, k) = work_ok(&text(d));
        if w > if k == ok { 8 * last + 300 } else { 80 * last + 1000 } {
            return Verdict::Fail(format!(
                "nesting {} of {:?} in {:?}: {} allocations at depth {}, {} at depth {}; text: {}",
                d / 2,
                levels.iter().map(|l| LEVELS[*l]).collect::<Vec<_>>(),
                (pre, post),
                last,
                d / 2,
                w,
                d,
                cut(&text(d))
            ));
        }
        last = w;
        ok = k;
    }
    pass(last > first, if p[1] == 0 { "nested type" } else { "nested type, malformed" })
}

/// texts: the scale kind and how it is cut; sizes n and 8 n, n and 32 n
fn judge_growth(c: &Case) -> Verdict {
    let k = c.texts[0].as_str();
    let full = |n: usize| {
        let t = scale(k, n);
        match c.texts.get(1).map_or("", |x| x.as_str()) {
            "cut" => {
                let mut e = t.len() - t.len() / 8 - 1;
                while !t.is_char_boundary(e) {
                    e -= 1;
                }
                t[..e].to_string()
            }
            "bad" => format!("{} ?", t),
            _ => t,
        }
    };
    if !GROWTH.contains(&k) {
        return pass(false, "not a case");
    }
    // allocations are exact; of the CPU times the best of 5 tries counts, and a try that is far off
    // needs no second one. Eightfold first, so that a blow-up shows before the long texts are tried.
    for (n, m, most) in [(1000, 8_000, 32), (2000, 64_000, 110)] {
        let (a, b) = (full(n), full(m));
        let (x, y) = (work(&a), work(&b));
        if y > most * x + 2000 {
            return Verdict::Fail(format!("{}: {} allocations for {} items, {} for {}", k, x, n, y, m));
        }
        let mut best = f64::MAX;
        for _ in 0..5 {
            let s = (0..5).map(|_| cpu_ns(&a)).min().unwrap().max(20_000) as f64;
            let l = (0..2).map(|_| cpu_ns(&b)).min().unwrap() as f64;
            best = best.min(l / s);
            if best < most as f64 || l > 4e9 {
                break;
            }
        }
        if best >= most as f64 {
            return Verdict::Fail(format!("{}: {} times the items take {:.0} times the CPU time ({} and {} items)", k, m / n, best, n, m));
        }
    }
    pass(true, "list growth")
}

const GROWTH: &[&str] = &[
    "defs", "defs-mixed", "enum", "enum-same", "ifmembers", "opmembers", "mixmembers", "nsmembers", "dictmembers", "args", "args-opt", "args-ctor", "attrs",
    "attrs-mixed", "idents", "union", "identlen", "typelen", "escaped", "strlen", "attrstr", "dec", "hex", "oct", "float-int", "float-frac", "float-exp", "spaces", "newlines",
    "blockcomment", "linecomment", "comments", "onlycomments",
    "partials", "cbmembers", "mixed-members", "mix-ops", "ns-attrs", "dict-defaults", "args-op", "args-attrs", "args-attr", "args-named", "args-async", "attrs-arg", "attrs-type", "attrs-union", "union-arg", "union-ret", "union-wide", "comments-enum", "comments-members", "comments-args", "comments-attrs", "comments-defs", "strings", "escapes", "lits", "includes",
];

fn attr_nest(kind: &str, d: usize) -> String {
    match kind {
        "attr-args-variadic" => {
            let mut t = "long... a".to_string();
            for _ in 0..d {
                t = format!("[A({})] long... a", t);
            }
            format!("callback C = any({});", t)
        }
        _ => format!("{}typedef long x;", "[A(".repeat(d)),
    }
}

fn attr_findings(f: &Findings, st: &mut Stats) -> Option<(Case, String)> {
    for (key, a, b) in [("attr-args-variadic", 5, 10), ("attr-args-malformed", 4, 8)] {
        let (x, y) = (cpu_units(&attr_nest(key, a)), cpu_units(&attr_nest(key, b)));
        st.evaluations += 1;
        st.notes.push(format!("{}: {} parse steps at depth {}, {} at depth {}", key, x, a, y, b));
        if y > 6 * x.max(1) + 200 {
            match f.get(key) {
                Some(w) => st.known.push(format!("key={} {}", key, w)),
                None => return Some((Case::one("doc", attr_nest(key, b)), format!("{}: work {} at depth {}, {} at depth {}", key, x, a, y, b))),
            }
        }
    }
    None
}

/// allocations, or (for texts that allocate nothing while failing) microseconds
fn cpu_units(s: &str) -> u64 {
    let w = work(s);
    let t = (0..5).map(|_| cpu_ns(s)).min().unwrap() / 1000;
    w.max(t)
}

pub const C15: Prop = Prop {
    id: "C15",
    rule: "cycles of 1 to 4 nesting forms (30) x 12 innermost types x 29 positions x 5 kinds of damage, allocations at depths 3, 6, 12, 24, 48; 59 list/length dimensions, whole, cut and followed by junk, allocations and CPU time at 1000 and 8000, 2000 and 64000; non-trivial: the work grew with the size",
    gen: |s| {
        let n = 1 + s.count(1, 3);
        let l: Vec<String> = (0..n).map(|_| s.below(LEVELS.len() as u32).to_string()).collect();
        let k = format!("nest:{}:{}:{}", s.below(WORK_CTX.len() as u32), s.below(5), s.below(CENTRES.len() as u32));
        Case { kind: k, texts: vec![l.join(" ")] }
    },
    eval: judge_work,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        for k in GROWTH {
            for c in ["", "cut", "bad"] {
                sh.go(|| Case { kind: "growth".into(), texts: vec![k.to_string(), c.into()] });
            }
        }
        for ctx in 0..WORK_CTX.len() {
            for damage in 0..5 {
                for centre in 0..CENTRES.len() {
                    for l in 0..LEVELS.len() {
                        sh.go(|| Case { kind: format!("nest:{}:{}:{}", ctx, damage, centre), texts: vec![l.to_string()] });
                        if thorough || (centre == 0 && ctx < 9) {
                            for m in 0..LEVELS.len() {
                                sh.go(|| Case { kind: format!("nest:{}:{}:{}", ctx, damage, centre), texts: vec![format!("{} {}", l, m)] });
                            }
                        }
                    }
                }
            }
        }
    },
    quick: 150_000,
    thorough: 5_000_000,
    hang_is_violation: true,
    finish: attr_findings,
    assumptions: &[
        "work is measured as heap allocations made while parsing (exact) and, for lists, thread CPU time with a wide margin (8-fold size: below 32-fold time, 32-fold: below 110)",
        "extended attributes nested inside argument lists of extended attributes are recorded findings and not part of the generated cases",
    ],
};

// ---------------------------------------------------------------- C16

fn brief(s: &str) -> Result<T, String> {
    match entries::document(s) {
        Out::Ok { tree, .. } => Ok(tree),
        Out::Err { rest } => Err(format!("error at {}", rest)),
        o => Err(o.show()),
    }
}

/// The result for a text, in one line.
pub fn fingerprint(s: &str) -> String {
    fn fnv(w: &str) -> u64 {
        w.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
    }
    // every grammar type on a short text, the list of definitions on any
    let mut parts = String::new();
    for (n, f) in entries::TYPES {
        if s.len() < 200 || *n == "Definitions" {
            let w = match f(s) {
                Out::Ok { tree, rest } => format!("{} {}", rest, tree.show(1 << 24)),
                Out::Err { rest } => format!("error at {}", rest),
                o => o.show(),
            };
            parts.push_str(&format!("{}: {:016x} ", n, fnv(&w)));
        }
    }
    match brief(s) {
        Ok(t) => {
            let w = t.show(1 << 24);
            format!("tree {:016x} of {} bytes, types {:016x}", fnv(&w), w.len(), fnv(&parts))
        }
        Err(e) => format!("{}, types {:016x}", e.replace('\n', " "), fnv(&parts)),
    }
}
pub fn pack(texts: &[String]) -> Vec<u8> {
    texts.iter().flat_map(|t| format!("{}\n{}", t.len(), t).into_bytes()).collect()
}
pub fn unpack(mut b: &[u8]) -> Vec<String> {
    let mut v = vec![];
    while let Some(i) = b.iter().position(|c| *c == b'\n') {
        let n: usize = std::str::from_utf8(&b[..i]).ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        let t = &b[i + 1..(i + 1 + n).min(b.len())];
        v.push(String::from_utf8_lossy(t).into_owned());
        b = &b[(i + 1 + n).min(b.len())..];
    }
    v
}

/// The same texts in a new process, with other surroundings: NAME=VALUE, -NAME (unset), cwd=DIR, or nothing.
fn judge_process(how: &str, texts: &[String]) -> Verdict {
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("brief").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    if how == "empty" {
        c.env_clear();
    } else if let Some(d) = how.strip_prefix("cwd=") {
        c.current_dir(d);
    } else if let Some((k, v)) = how.split_once('=') {
        c.env(k, v);
    } else if let Some(k) = how.strip_prefix('-') {
        c.env_remove(k);
    }
    let Ok(mut ch) = c.spawn() else { return Verdict::Broken("cannot start a process".into()) };
    let mut pipe = ch.stdin.take().unwrap();
    let data = pack(texts);
    let feed = std::thread::spawn(move || {
        let _ = std::io::Write::write_all(&mut pipe, &data);
    });
    let out = ch.wait_with_output();
    let _ = feed.join();
    let Ok(out) = out else { return Verdict::Broken("no output of a process".into()) };
    let out = String::from_utf8_lossy(&out.stdout).into_owned();
    let lines: Vec<&str> = out.lines().collect();
    for (i, t) in texts.iter().enumerate() {
        let here = fingerprint(t);
        let there = lines.get(i).copied().unwrap_or("no result");
        if here != there {
            return Verdict::Fail(format!("{:?} gives another result in a new process ({})\n  here:  {}\n  there: {}", cut(t), if how.is_empty() { "same surroundings" } else { how }, here, there));
        }
    }
    pass(!texts.is_empty(), "a new process")
}

/// `n` threads one after the other, then `n` alive at once, each parsing the texts.
fn judge_spawn(n: usize, texts: &[String]) -> Verdict {
    let want: Vec<String> = texts.iter().map(|t| fingerprint(t)).collect();
    let bad = std::sync::Mutex::new(None);
    let once = |k: usize| {
        for i in 0..texts.len() {
            let j = (i + k) % texts.len();
            let r = std::panic::catch_unwind(|| fingerprint(&texts[j])).unwrap_or_else(|_| "a panic".into());
            if r != want[j] {
                bad.lock().unwrap().get_or_insert((j, k, r));
            }
        }
    };
    for k in 0..n {
        std::thread::scope(|sc| {
            std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(sc, || once(k)).unwrap();
        });
        if bad.lock().unwrap().is_some() {
            break;
        }
    }
    let m = n.min(200);
    let gate = std::sync::Barrier::new(m);
    std::thread::scope(|sc| {
        for k in 0..m {
            let (once, gate) = (&once, &gate);
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    gate.wait();
                    once(k);
                    gate.wait();
                })
                .unwrap();
        }
    });
    let v = match bad.lock().unwrap().take() {
        Some((j, k, r)) => Verdict::Fail(format!("{:?} gives another result on thread {}\n  first: {}\n  there: {}", cut(&texts[j]), k, want[j], r)),
        None => pass(true, "many threads, in turn and at once"),
    };
    v
}

thread_local! {
    /// what elements of our own look at while the parser is at work on what they are in
    static WITHIN: std::cell::RefCell<(Vec<String>, Vec<String>)> = Default::default();
}
/// An element whose parser parses other texts.
struct Within;
impl<'a> weedle::Parse<'a> for Within {
    fn parse(i: &'a str) -> weedle::IResult<&'a str, Self> {
        let texts = WITHIN.with(|w| w.borrow().0.clone());
        let r: Vec<String> = texts.iter().map(|t| fingerprint(t)).collect();
        WITHIN.with(|w| w.borrow_mut().1.extend(r));
        match i.strip_prefix('x') {
            Some(r) => Ok((r, Within)),
            None => Err(weedle::Err::Error((i, weedle::ErrorKind::Char))),
        }
    }
}
/// An element whose parser panics.
struct Bomb;
impl<'a> weedle::Parse<'a> for Bomb {
    fn parse(_: &'a str) -> weedle::IResult<&'a str, Self> {
        std::panic::resume_unwind(Box::new("bomb"))
    }
}

/// Each text in many places: alignments, pages, stack, static memory, threads of other names, deep in the stack,
/// inside the parser of an element, after one that panicked, and while a panic unwinds.
fn judge_place(texts: &[String]) -> Verdict {
    use weedle::common::{Braced, Bracketed, Generics, Parenthesized, Punctuated, PunctuatedNonEmpty};
    use weedle::Parse;
    let want: Vec<String> = texts.iter().map(|t| fingerprint(t)).collect();
    let show = |t: &str| brief(t).map(|t| t.show(1 << 20));
    let short: Vec<_> = texts.iter().map(|t| show(t)).collect();
    let bad = |t: &str, how: &str, a: &str, b: &str| Verdict::Fail(format!("{:?} gives another result {}\n  first: {}\n  there: {}", cut(t), how, cut(a), cut(b)));
    let flat = |r: &Result<String, String>| r.clone().unwrap_or_else(|e| e);
    for (k, t) in texts.iter().enumerate() {
        // alignments, and the edges of pages
        let mut big = vec![b' '; t.len() + 3 * 4096];
        let base = big.as_ptr() as usize;
        let page = 4096 - base % 4096;
        let mut at: Vec<usize> = (0..64).step_by(1 + t.len() / 200).collect();
        at.extend([page, page + 1, page - 1, page + 4096 - t.len() % 4096, page + 4095 - t.len() % 4096]);
        at.extend((0..t.len().min(60)).map(|d| page + 4096 - d).filter(|_| t.len() < 200));
        for o in at {
            big[o..o + t.len()].copy_from_slice(t.as_bytes());
            let r = show(std::str::from_utf8(&big[o..o + t.len()]).unwrap());
            if r != short[k] {
                return bad(t, &format!("at another address ({} bytes after the start of a page)", (base + o) % 4096), &flat(&short[k]), &flat(&r));
            }
            big[o..o + t.len()].fill(b' ');
        }
        let far = format!("{}{}", " ".repeat(3 << 20), t);
        let mut stack = [b'x'; 4096];
        let mut all: Vec<(&str, &str)> = vec![("in a large buffer", &far[3 << 20..])];
        if t.len() < 4096 {
            stack[..t.len()].copy_from_slice(t.as_bytes());
            all.push(("on the stack", std::str::from_utf8(&stack[..t.len()]).unwrap()));
        }
        if let Some(d) = DOCS.iter().chain(STUCK).find(|d| **d == t.as_str()) {
            all.push(("in static memory", d));
        }
        for (how, x) in all {
            let r = fingerprint(x);
            if r != want[k] {
                return bad(t, how, &want[k], &r);
            }
        }
    }
    // threads of all names
    for name in ["main", "", "worker", "tokio-runtime-worker", "rayon", "weedle"] {
        let b = std::thread::Builder::new().stack_size(8 << 20);
        let b = if name.is_empty() { b } else { b.name(name.into()) };
        let r: Vec<String> = std::thread::scope(|sc| b.spawn_scoped(sc, || texts.iter().map(|t| fingerprint(t)).collect()).unwrap().join()).unwrap_or_default();
        for k in 0..texts.len() {
            let there = r.get(k).map_or("a panic", |x| x.as_str());
            if there != want[k] {
                return bad(&texts[k], &format!("on a thread named {:?}", name), &want[k], there);
            }
        }
    }
    // deep in the stack
    fn deep(n: usize, f: &mut dyn FnMut()) -> usize {
        let pad = std::hint::black_box([n as u8; 1000]);
        if n == 0 {
            f();
            return 0;
        }
        deep(n - 1, f) + pad[n % 1000] as usize
    }
    let mut r = vec![];
    deep(3000, &mut || r = texts.iter().map(|t| fingerprint(t)).collect());
    for k in 0..texts.len() {
        if r[k] != want[k] {
            return bad(&texts[k], "deep in the stack", &want[k], &r[k]);
        }
    }
    // within the parser of an element, in each building block
    type P<'x> = fn(&'x str) -> bool;
    let blocks: &[(&str, P, &str, usize)] = &[
        ("( )", |s| matches!(Parenthesized::<Within>::parse(s), Ok(("", _))), "(x)", 1),
        ("[ ]", |s| matches!(Bracketed::<Within>::parse(s), Ok(("", _))), "[x]", 1),
        ("{ }", |s| matches!(Braced::<Vec<Within>>::parse(s), Ok(("", _))), "{xx}", 3),
        ("< >", |s| matches!(Generics::<Box<Within>>::parse(s), Ok(("", _))), "<x>", 1),
        ("Vec", |s| matches!(Vec::<Within>::parse(s), Ok(("", v)) if v.len() == 2), "xx", 3),
        ("Option", |s| matches!(Option::<Within>::parse(s), Ok(("", Some(_)))), "x", 1),
        ("pair", |s| matches!(<(Within, Within)>::parse(s), Ok(("", _))), "xx", 2),
        ("Punctuated", |s| matches!(Punctuated::<Within, weedle::term::Comma>::parse(s), Ok(("", p)) if p.list.len() == 2), "x,x", 2),
        ("PunctuatedNonEmpty", |s| matches!(PunctuatedNonEmpty::<Within, weedle::term::Comma>::parse(s), Ok(("", p)) if p.list.len() == 2), "x,x,", 2),
    ];
    for (name, f, text, times) in blocks {
        WITHIN.with(|w| *w.borrow_mut() = (texts.to_vec(), vec![]));
        let ok = std::panic::catch_unwind(|| f(text));
        let r = WITHIN.with(|w| std::mem::take(&mut *w.borrow_mut()).1);
        if !matches!(ok, Ok(true)) {
            return Verdict::Fail(format!("{:?} is not read as {} of elements that parse {:?} themselves", text, name, texts.iter().map(|t| cut(t)).collect::<Vec<_>>()));
        }
        if r.len() < times * texts.len() {
            return Verdict::Broken(format!("{} element calls in {}", r.len(), name));
        }
        for (i, x) in r.iter().enumerate() {
            let k = i % texts.len();
            if *x != want[k] {
                return bad(&texts[k], &format!("within the parser of an element of {}", name), &want[k], x);
            }
        }
    }
    // after elements that panic, and while a panic unwinds
    let bombs: &[fn() -> bool] = &[
        || Parenthesized::<Bomb>::parse("(x)").is_ok(),
        || Braced::<Vec<Bomb>>::parse("{x}").is_ok(),
        || Generics::<Box<Bomb>>::parse("<x>").is_ok(),
        || Bracketed::<Punctuated<Bomb, weedle::term::Comma>>::parse("[x]").is_ok(),
        || Option::<(Bomb, Bomb)>::parse("x").is_ok(),
    ];
    for i in 0..70 {
        for b in bombs {
            let _ = std::panic::catch_unwind(b);
        }
        for k in 0..texts.len() {
            let r = show(&texts[k]);
            if r != short[k] {
                return bad(&texts[k], &format!("after {} elements whose parsers panicked", (i + 1) * bombs.len()), &flat(&short[k]), &flat(&r));
            }
        }
    }
    for k in 0..texts.len() {
        let r = fingerprint(&texts[k]);
        if r != want[k] {
            return bad(&texts[k], "after elements whose parsers panicked", &want[k], &r);
        }
    }
    struct Late<'x>(&'x [String], &'x std::cell::RefCell<Vec<String>>);
    impl<'x> Drop for Late<'x> {
        fn drop(&mut self) {
            let v = self.0.iter().map(|t| fingerprint(t)).collect();
            *self.1.borrow_mut() = v;
        }
    }
    let got = std::cell::RefCell::new(vec![]);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _late = Late(texts, &got);
        let _ = Parenthesized::<Bomb>::parse("(x)").is_ok();
    }));
    let got = got.into_inner();
    for k in 0..texts.len() {
        let there = got.get(k).map_or("nothing", |x| x.as_str());
        if there != want[k] {
            return bad(&texts[k], "while a panic unwinds", &want[k], there);
        }
    }
    pass(!texts.is_empty(), "other places")
}

const SURROUNDINGS: &[&str] = &[
    "", "empty", "cwd=/", "cwd=/tmp", "-HOME", "-PATH", "LANG=tr_TR.UTF-8", "LC_ALL=C", "LC_ALL=tr_TR.UTF-8", "TZ=Pacific/Apia", "RUST_BACKTRACE=1", "RUST_LOG=trace", "RUST_LOG=weedle", "RUST_MIN_STACK=65536", "DEBUG=1", "CI=1", "CI=true",
    "WEEDLE_STRICT=1", "WEEDLE_DEBUG=1", "WEEDLE_LENIENT=1", "WEEDLE=1", "WEBIDL=1", "NO_COLOR=1", "TERM=dumb", "HOME=/nonexistent", "USER=nobody", "SOURCE_DATE_EPOCH=0", "CARGO=1", "PROFILE=debug",
];

/// texts: a history of parse calls; equal texts must give equal results, wherever they lie.
fn judge_history(c: &Case) -> Verdict {
    if let Some(n) = c.kind.strip_prefix("long:") {
        return judge_long(n.parse().unwrap_or(1), &c.texts);
    }
    if let Some(n) = c.kind.strip_prefix("crowd:") {
        return judge_crowd(n.parse().unwrap_or(1), &c.texts);
    }
    if let Some(h) = c.kind.strip_prefix("process:") {
        return judge_process(h, &c.texts);
    }
    if c.kind == "place" {
        // on a thread of its own: what panics leave behind counts from zero
        let run = || judge_place(&c.texts);
        return std::thread::scope(|sc| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, run).unwrap().join()).unwrap_or(Verdict::Fail("the thread panicked".into()));
    }
    if let Some(n) = c.kind.strip_prefix("spawn:") {
        return judge_spawn(n.parse().unwrap_or(1), &c.texts);
    }
    let mut seen: Vec<(&str, Result<T, String>)> = vec![];
    let mut index: std::collections::HashMap<&str, usize> = Default::default();
    let mut buffer = String::with_capacity(c.texts.iter().map(|t| t.len()).max().unwrap_or(0) + 16);
    let mut repeats = 0;
    let differ = |s: &str, how: &str, a: &Result<T, String>, b: &Result<T, String>| {
        let f = |r: &Result<T, String>| r.as_ref().map_or_else(|e| e.clone(), |t| t.show(500));
        Verdict::Fail(format!("{:?} gives another result {}\n  first: {}\n  then:  {}", cut(s), how, f(a), f(b)))
    };
    for (i, t) in c.texts.iter().enumerate() {
        // odd calls: a buffer reused in place, so the address is that of the text before
        let r = if i % 2 == 1 {
            buffer.clear();
            buffer.push_str(t);
            brief(&buffer)
        } else {
            brief(t)
        };
        match index.get(t.as_str()).map(|k| &seen[*k]) {
            Some((_, old)) => {
                repeats += 1;
                if *old != r {
                    return differ(t, "later in the history", old, &r);
                }
            }
            None => {
                index.insert(t, seen.len());
                seen.push((t, r))
            }
        }
    }
    // again, in the opposite order, in the middle of other memory
    for (i, (t, old)) in seen.iter().rev().enumerate() {
        // what lies around the text, and where it starts
        let (a, b) = [("x", "y"), ("\"", "\""), ("/*", "*/"), ("\n", " \n"), ("0", "0x"), ("_", "-"), ("é", "é"), ("[A] ", ";")][(i + t.len()) % 8];
        let pad = " ".repeat((i * 5 + t.len()) % 17);
        let held = format!("{}{}{}{}", pad, a, t, b);
        let at = pad.len() + a.len();
        let r = brief(&held[at..at + t.len()]);
        if *old != r {
            return differ(t, "inside a larger buffer, in the opposite order", old, &r);
        }
    }
    if c.kind == "threads" {
        let texts: Vec<&str> = seen.iter().map(|x| x.0).collect();
        let want: Vec<Result<String, String>> = seen.iter().map(|x| x.1.as_ref().map(|t| t.show(1 << 20)).map_err(|e| e.clone())).collect();
        let bad = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4)
                .map(|k| {
                    let (texts, want) = (&texts, &want);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            for round in 0..6 {
                                for i in 0..texts.len() {
                                    let i = (i * (2 * k + 1) + round + k) % texts.len();
                                    let r = brief(texts[i]).map(|t| t.show(1 << 20));
                                    if r != want[i] {
                                        return Some(i);
                                    }
                                }
                            }
                            None
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().ok().flatten()).next()
        });
        if let Some(i) = bad {
            return Verdict::Fail(format!("{:?} gives another result while other threads parse", cut(texts[i])));
        }
        return pass(c.texts.len() > 1, "history, then 4 threads at once");
    }
    pass(c.texts.len() > 1, if repeats > 0 { "history with repeats" } else { "history" })
}

/// On a thread of its own: each text once, the last one `n` more times, then all again.
fn judge_long(n: usize, texts: &[String]) -> Verdict {
    let Some(b) = texts.last() else { return pass(false, "nothing") };
    let bad = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                let show = |t: &String| brief(t).map(|t| t.show(1 << 20));
                let first: Vec<_> = texts.iter().map(show).collect();
                let ok = first[texts.len() - 1].is_ok();
                for i in 0..n {
                    let r = inside(|| std::panic::catch_unwind(|| weedle::parse(b).is_ok()));
                    if !matches!(r, Ok(k) if k == ok) {
                        return Some(format!("{:?} was {}, and is {} when parsed for the {}th time", cut(b), ["refused", "accepted"][ok as usize], ["accepted", "refused"][ok as usize], i + 2));
                    }
                }
                for (t, f) in texts.iter().zip(&first) {
                    let r = show(t);
                    if r != *f {
                        let s = |r: &Result<String, String>| r.as_ref().map_or_else(|e| e.clone(), |t| cut(t));
                        return Some(format!("{:?} gives another result after {} calls for {:?}\n  first: {}\n  then:  {}", cut(t), n, cut(b), s(f), s(&r)));
                    }
                }
                None
            })
            .unwrap()
            .join()
            .unwrap_or(Some("the thread panicked".into()))
    });
    match bad {
        Some(m) => Verdict::Fail(m),
        None => pass(n > 1, "one text many times, then others again"),
    }
}

/// 12 threads at once, each staying with one or two texts of its own, `n` times.
fn judge_crowd(n: usize, texts: &[String]) -> Verdict {
    if texts.is_empty() {
        return pass(false, "nothing");
    }
    let show = |t: &String| brief(t).map(|t| t.show(1 << 20));
    let want: Vec<_> = texts.iter().map(show).collect();
    const K: usize = 12;
    let gate = std::sync::Barrier::new(K);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let bad = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..K)
            .map(|k| {
                let (want, gate, stop) = (&want, &gate, &stop);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        gate.wait();
                        for i in 0..n {
                            let j = (k + (i % 8 == 7) as usize) % texts.len();
                            let good = if i % 4 == 3 || i == 0 {
                                show(&texts[j]) == want[j]
                            } else {
                                let r = std::panic::catch_unwind(|| weedle::parse(&texts[j]).is_ok());
                                matches!(r, Ok(ok) if ok == want[j].is_ok())
                            };
                            if stop.load(std::sync::atomic::Ordering::Relaxed) {
                                return None;
                            }
                            if !good {
                                stop.store(true, std::sync::atomic::Ordering::Relaxed);
                                return Some(j);
                            }
                        }
                        None
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some(0))).collect::<Vec<_>>()
    });
    match bad.into_iter().flatten().next() {
        Some(j) => Verdict::Fail(format!("{:?} gives another result while {} threads parse texts of their own", cut(&texts[j]), K)),
        None => pass(n > 1, "a crowd of threads"),
    }
}

/// Texts that reach into every kind of construct and then fail there.
const STUCK: &[&str] = &[
    "typedef sequence<long> x", "typedef sequence<?", "typedef Promise<", "typedef (long or ) x;", "typedef record<DOMString, > x;", "typedef FrozenArray<sequence<(A or B)", "enum E { \"a\", , };",
    "interface I { attribute long a; x };", "interface I { undefined f(long a, ); };", "interface I { iterable<long", "interface I { const long x = 08; };", "[A(long", "[A=(B,", "[A=\"x", "dictionary D { long a = [; };",
    "namespace N { attribute long a; };", "interface mixin M { static long f(); };", "callback C = any (optional long a =", "partial x", "/*", "typedef long \u{e9};", "}", "a includes", "interface I : {",
];

/// One of a few long texts with one byte changed: many texts of the same length, start and end.
fn variant_of(s: &mut Src) -> String {
    static BASES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let bases = BASES.get_or_init(|| {
        let mut v: Vec<String> = vec![scale("defs-mixed", 20), scale("ifmembers", 10), scale("enum", 60), scale("args", 150), scale("seq", 20), scale("attrs-mixed", 30)];
        v.push(DOCS.join("\n"));
        v.push(format!("{}{}", " ".repeat(300), DOCS[4]));
        v.push(format!("{}{}", DOCS[4], " ".repeat(300)));
        v
    });
    let b = &bases[s.below(bases.len() as u32) as usize];
    let mut b = b.clone().into_bytes();
    if s.pct(80) {
        let i = s.below(b.len() as u32) as usize;
        if b[i] < 128 {
            b[i] = *s.pick(b"ab_0;Z \"(},");
        }
    }
    String::from_utf8(b).unwrap()
}

fn short_text(s: &mut Src) -> String {
    match s.below(7) {
        6 => variant_of(s),
        0 => s.pick(DOCS).to_string(),
        1 => {
            let mut t = s.pick(DOCS).to_string();
            mutate_text(s, &mut t);
            t
        }
        2 => {
            // same length, other content
            let d = s.pick(DOCS).to_string();
            let i = s.below(d.len() as u32) as usize;
            let mut b = d.into_bytes();
            b[i] = *s.pick(b"ab_0;Z ");
            String::from_utf8(b).unwrap()
        }
        3 => {
            let p = Profile { mean: 1, budget: 40, keyword: 5, big: 0, ..BASE };
            let (mut t, _, _) = derive(s, &p, "Definitions");
            let n = t.len();
            mutate_tokens(s, &mut t, 0, n);
            render(s, &t, Ws::Light)
        }
        4 => s.pick(&["", " ", "}", "typedef", "\"", "/*", "//", "é", "enum E { \"a\" ,", "[", "interface I {"]).to_string(),
        _ => {
            let p = Profile { mean: 1, budget: 40, big: 0, ..BASE };
            derived_text(s, &p, "Definitions", Ws::Light)
        }
    }
}

pub const C16: Prop = Prop {
    id: "C16",
    rule: "histories of 2 to 24 parse calls over a pool of 1 to 6 texts (well formed, malformed, same-length variants of each other), alternating fresh and reused buffers, repeated in the opposite order inside larger buffers, one in 12 also by 4 threads at once; 12 threads at once on texts of their own (nested up to 3000 deep, long, malformed); new processes with other environments, directories, and with each of many texts first; texts at 64 alignments and the edges of pages, on the stack, in static memory, on threads of other names, deep in the stack, inside the parsers of elements, after ones that panic and while a panic unwinds; 3000 threads in turn; one text parsed up to 140000 times on a fresh thread between two rounds of all samples (80 texts, 24 of them stuck inside each kind of construct); non-trivial: at least two calls (distinct histories)",
    gen: |s| {
        let n = 1 + s.count(3, 5);
        let pool: Vec<String> = (0..n).map(|_| short_text(s)).collect();
        if s.permille(2) {
            let k = s.log(3000);
            return Case { kind: format!("long:{}", k), texts: pool };
        }
        if s.permille(4) {
            // in a new process, or on new threads
            let kind = ["process:", "spawn:2", "place"][s.below(3) as usize];
            return Case { kind: kind.into(), texts: pool };
        }
        let k = 2 + s.count(6, 22);
        let texts = (0..k).map(|_| pool[s.below(n) as usize].clone()).collect();
        Case { kind: if s.below(12) == 11 { "threads".into() } else { "history".into() }, texts }
    },
    eval: judge_history,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        let junk = ["", "}", "typedef long;", "enum E { \"a\" , , };", "interface I { attribute long a; x };", "/*", "[A(", "é", "typedef sequence<sequence<long>> x"];
        for a in DOCS {
            for b in DOCS.iter().chain(&junk) {
                let v = |x: &[&str]| Case { kind: "history".into(), texts: x.iter().map(|t| t.to_string()).collect() };
                sh.go(|| v(&[a, b, a, b, b, a]));
                sh.go(|| v(&[b, a, a, b]));
            }
            let mut t: Vec<String> = DOCS.iter().map(|d| d.to_string()).collect();
            t.push(a.to_string());
            t.insert(0, a.to_string());
            sh.go(|| Case { kind: "history".into(), texts: t.clone() });
            sh.go(|| Case { kind: "threads".into(), texts: t });
        }
        // long histories of one text
        for a in DOCS {
            sh.go(|| Case { kind: "history".into(), texts: vec![a.to_string(); 3000] });
        }
        // many different texts, then all again
        for n in [10, 70, 130, 300, 1100, 4200, 10_000, 70_000] {
            for k in 0..if n < 70_000 || thorough { 4 } else { 1usize } {
                sh.go(|| {
                    let texts = (0..n)
                        .map(|i| match (k, i % 3) {
                            (0, _) => format!("typedef T{} a;", i),
                            (1, 0) => format!("interface I{} {{ attribute long a{}; }};", i % 977, i),
                            (1, _) => format!("interface I{} {{ attribute long a{} }};", i % 977, i),
                            (2, _) => format!("enum E {{ \"{}\", \"{}\" }};", i, i * 7 % 1000),
                            _ => format!("{} /* {:05} */", DOCS[i % DOCS.len()], i),
                        })
                        .collect();
                    Case { kind: "history".into(), texts }
                });
            }
        }
        // single bytes changed in a long text
        let long = DOCS[..20].join("");
        for i in 0..long.len() {
            sh.go(|| {
                let mut b = long.clone().into_bytes();
                b[i] = if b[i] == b'q' { b'r' } else { b'q' };
                let v = String::from_utf8(b).unwrap();
                Case { kind: "history".into(), texts: vec![long.clone(), v.clone(), long.clone(), v] }
            });
        }
        let mut panel: Vec<String> = DOCS.iter().map(|d| d.to_string()).collect();
        panel.push(scale("seq", 30));
        panel.push(scale("unionr", 30));
        for b in DOCS {
            let mut t = panel.clone();
            t.push(b.to_string());
            let n = (if thorough { 20_000_000 } else { 1_000_000 }) / b.len();
            sh.go(|| Case { kind: format!("long:{}", n), texts: t });
        }
        // other places in memory, other threads, inside other calls
        for d in 0..DRESSES {
            for i in 0..DOCS.len() {
                if thorough || (i + d) % 4 == 0 {
                    sh.go(|| Case { kind: "place".into(), texts: vec![dressed_doc(DOCS[i], d), DOCS[i].to_string(), dressed_doc(DOCS[(i * 7 + d) % DOCS.len()], d)] });
                }
            }
        }
        for t in STUCK {
            sh.go(|| Case { kind: "place".into(), texts: vec![t.to_string()] });
        }
        // near misses
        for d in ["typedef sequence < ( long or record < DOMString , T ? > ) > a ;", "[ A ( long a ) , B = ( C ) ] interface I : J { attribute long a ; T f ( optional long a = 1 , any ... b ) ; } ;", "enum E { \"a\" , \"b\" } ; dictionary D { long a = [ ] ; } ; a includes b ;"] {
            let t = toks_of(d);
            for i in 0..=t.len() {
                sh.go(|| Case { kind: "place".into(), texts: SYMBOLS.iter().chain(&["x", "long"]).map(|w| format!("{} {} {}", join(&t[..i]), w, join(&t[i..]))).collect() });
            }
        }
        for k in ["defs-mixed", "seq", "args", "strlen", "identlen", "enum"] {
            for n in [30, 300] {
                sh.go(|| Case { kind: "place".into(), texts: vec![scale(k, n)] });
            }
        }
        // new processes, other surroundings
        let stuck: Vec<String> = panel.iter().cloned().chain(STUCK.iter().map(|t| t.to_string())).collect();
        for h in SURROUNDINGS.iter().map(|h| h.to_string()).chain(dict().words.iter().filter(|w| w.len() > 1 && w.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_')).flat_map(|w| {
            ["1", "0", "", "true", "off"].map(|v| format!("{}={}", w, v))
        })) {
            sh.go(|| Case { kind: format!("process:{}", h), texts: stuck.clone() });
        }
        for i in 0..8 {
            sh.go(|| Case { kind: "process:".into(), texts: corpus().iter().flatten().skip(i).step_by(8).cloned().chain(ladder(600).into_iter().skip(i).step_by(8).flat_map(|n| ["defs-mixed", "seq", "args", "strlen", "identlen"].map(|k| scale(k, n)))).collect() });
        }
        // what the first text of a process is must not matter, nor that of a thread
        let probes: Vec<String> = (0..DRESSES).map(|d| dressed_doc(DOCS[(d * 5) % DOCS.len()], d)).collect();
        let firsts = (0..DOCS.len() * DRESSES).map(|i| dressed_doc(DOCS[i / DRESSES], i % DRESSES)).chain(STUCK.iter().map(|t| t.to_string())).chain(
            ["", " ", "\n", "\r\n", "\u{feff}", "\u{feff}typedef long a;", "// x", "/* */", "\0", "é", "\"", "typedef long a;\r\n", "\ttypedef long a;", "  typedef long a;  "].map(String::from),
        );
        // ... nor the first name, string, number or gap read
        let mut words: Vec<String> = Vec::new();
        for n in [1, 12, 41, 300] {
            for end in ["", "-", "--", "_", "__", "9", "Z", "a"] {
                words.push(format!("{}{}", "x".repeat(n), end));
                words.push(format!("_{}{}", "Xy9".repeat(n / 3), end));
            }
            words.push(format!("\"{}\"", "s ".repeat(n)));
            words.push(format!("\"{}\"", "é\n".repeat(n)));
            words.push("7".repeat(n));
            words.push(format!("-{}", "7".repeat(n)));
            words.push(format!("0x{}", "aF".repeat(n)));
            words.push(format!("{}.5e-{}", "1".repeat(n), n));
            words.push(format!("/*{}*/ a", "\r\n".repeat(n)));
            words.push(format!("//{}\na", " é".repeat(n)));
        }
        let odd: String = ["a-", "b--", "_c", "d_", "e9", "F", "g-h"].iter().map(|n| format!("[x{n}=\"{n} \"] typedef {n} {n};\r\nconst{n} implements {n};\ninterface {n} {{ const {n} {n} = -0x1F; attribute {n} {n}; }};\n")).collect();
        for w in &words {
            let first = [w.clone(), format!("typedef {w} {w}; // {w}")];
            for f in first {
                sh.go(|| Case { kind: "process:".into(), texts: vec![f.clone(), odd.clone()] });
            }
        }
        for (i, f) in firsts.enumerate() {
            let texts = || [f.clone()].into_iter().chain(probes.iter().skip(i % 3).step_by(3).cloned()).chain([odd.clone()]).collect::<Vec<_>>();
            if thorough || i % 3 == 0 || i >= DOCS.len() * DRESSES {
                sh.go(|| Case { kind: "process:".into(), texts: texts() });
            } else {
                sh.go(|| Case { kind: "spawn:3".into(), texts: texts() });
            }
        }
        // many threads
        for n in [20, 150, if thorough { 70_000 } else { 3000 }] {
            for t in [&stuck[..12], &stuck[stuck.len() - 30..]] {
                sh.go(|| Case { kind: format!("spawn:{}", n), texts: if n > 1000 { t[..3].to_vec() } else { t.to_vec() } });
            }
        }
        for n in dict().sizes.iter().filter(|n| **n < if thorough { 3_000_000 } else { 70_000 }) {
            for b in [DOCS[0], DOCS[16], STUCK[1]] {
                let mut t = panel.clone();
                t.push(b.to_string());
                sh.go(|| Case { kind: format!("long:{}", n), texts: t });
            }
        }
        // threads at once: deep ones, long ones, all kinds of definition, malformed ones
        let rounds = if thorough { 400 } else { 24 };
        for d in [30, 300, 3000] {
            for k in ["seq", "frozen", "promise", "recordv", "recordk", "unionl", "unionr"] {
                sh.go(|| Case { kind: format!("crowd:{}", rounds), texts: vec![scale(k, d), scale("seq", d / 2 + 1)] });
            }
            sh.go(|| Case { kind: format!("crowd:{}", rounds), texts: ["seq", "unionr", "args", "attrs-mixed", "enum", "ifmembers", "comments", "defs-mixed"].iter().map(|k| scale(k, d)).collect() });
            sh.go(|| Case { kind: format!("crowd:{}", rounds), texts: ["seq", "unionr", "recordk"].iter().map(|k| { let t = scale(k, d); t[..t.len() / 2].to_string() }).chain([scale("seq", d)]).collect() });
        }
        for (i, a) in DOCS.iter().enumerate() {
            sh.go(|| Case { kind: format!("crowd:{}", 8 * rounds), texts: vec![a.to_string(), DOCS[(i + 7) % DOCS.len()].into(), STUCK[i % STUCK.len()].into(), DOCS[(i + 23) % DOCS.len()].into()] });
        }
        for b in STUCK {
            let mut t = panel.clone();
            t.push(b.to_string());
            sh.go(|| Case { kind: format!("long:{}", if thorough { 5_000_000 } else { 140_000 }), texts: t });
        }
    },
    quick: 220_000,
    thorough: 6_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: &["threads are scheduled by the operating system; interleavings are sampled, not enumerated"],
};

// ---------------------------------------------------------------- C19

/// `defs`: texts are definitions; `members:<n>`: texts are members of the body kind n.
fn judge_independent(c: &Case) -> Verdict {
    if c.texts.is_empty() {
        return pass(false, "nothing");
    }
    let (pre, post) = match c.kind.strip_prefix("members:") {
        Some(n) => {
            let (_, a, b) = MEMBER_CTX[n.parse::<usize>().unwrap_or(0) % MEMBER_CTX.len()];
            (a, b)
        }
        None => ("", ""),
    };
    // entries of one text alone
    let parts = |s: &str| -> Option<Vec<T>> {
        match entries::document(s) {
            Out::Ok { tree, .. } => {
                if pre.is_empty() {
                    return Some(tree.items().to_vec());
                }
                let def = tree.items().first().filter(|_| tree.items().len() == 1)?;
                // Definition::X( XDefinition( ... Braced( "{" list "}" ) ";" ) )
                let body = def.items().first()?.items().iter().find(|k| matches!(&***k, Tree::Node("Braced", _)))?;
                Some(body.items().get(1)?.items().to_vec())
            }
            _ => None,
        }
    };
    let wrap = |s: &str| if pre.is_empty() { s.to_string() } else { format!("{} {} {}", pre, s, post) };
    let mut alone = vec![];
    for t in &c.texts {
        // a text must be complete on its own, for the reference too (no open comment at its end)
        if Ref::new(&wrap(t)).document().is_err() || t.contains("//") && !t.ends_with('\n') {
            return pass(false, "a part is not well formed");
        }
        match parts(&wrap(t)) {
            Some(v) => alone.push(v),
            None => return pass(false, "a part is not accepted (C01)"),
        }
    }
    let check = |order: &[usize], sep: &str| -> Option<Verdict> {
        let mut text = String::new();
        let mut want = vec![];
        for i in order {
            text.push_str(&c.texts[*i]);
            text.push_str(sep);
            want.extend(alone[*i].iter().cloned());
        }
        let text = wrap(&text);
        match parts(&text) {
            Some(got) if got == want => None,
            Some(got) => {
                let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                Some(Verdict::Fail(format!(
                    "{} entries expected, {} found; first difference at {}:\n  alone:    {}\n  together: {}\n  text: {}",
                    want.len(),
                    got.len(),
                    at,
                    want.get(at).map_or("-".into(), |t| t.show(500)),
                    got.get(at).map_or("-".into(), |t| t.show(500)),
                    cut(&text)
                )))
            }
            None => Some(Verdict::Fail(format!("accepted one by one, refused together: {}", text))),
        }
    };
    let n = c.texts.len();
    let fwd: Vec<usize> = (0..n).collect();
    let rev: Vec<usize> = (0..n).rev().collect();
    let mut orders = vec![(fwd.clone(), ""), (fwd.clone(), "\n"), (rev, " ")];
    if n > 1 && n <= 12 {
        for i in 0..n {
            let mut v = fwd.clone();
            v.remove(i);
            orders.push((v, ""));
            let mut v = fwd.clone();
            v.push(i);
            orders.push((v, " "));
        }
        orders.push((fwd.iter().chain(&fwd).copied().collect(), ""));
    }
    for (o, sep) in &orders {
        if let Some(v) = check(o, sep) {
            return v;
        }
    }
    pass(n > 1, if pre.is_empty() { "definitions" } else { "members" })
}

const BODY_RULES: &[&str] = &[
    "InterfaceMember", "InterfaceMember", "InterfaceMember", "InterfaceMember", "MixinMember", "MixinMember", "NamespaceMember", "NamespaceMember", "DictionaryMember", "DictionaryMember", "DictionaryMember",
];

pub const C19: Prop = Prop {
    id: "C19",
    rule: "lists of 2 to 8 definitions (or members of one of 11 body kinds) parsed alone and together: in order, reversed, with one left out, one repeated, all repeated, with and without whitespace between; all pairs of sample documents and member samples; repeated up to 4096 times; non-trivial: at least two parts, all accepted alone",
    gen: |s| {
        let p = Profile { mean: 1, budget: 30, big: 1, big_max: 300, ..BASE };
        let n = 2 + s.count(2, 6);
        if s.pct(50) {
            let k = s.below(MEMBER_CTX.len() as u32) as usize;
            let texts = (0..n)
                .map(|_| {
                    let ws = [Ws::Canon, Ws::Light, Ws::Min][s.below(3) as usize];
                    let t = derived_text(s, &p, BODY_RULES[k], ws);
                    if t.contains("//") { format!("{}\n", t) } else { t }
                })
                .collect();
            return Case { kind: format!("members:{}", k), texts };
        }
        let texts = (0..n)
            .map(|_| {
                let t = match s.below(4) {
                    0 => s.pick(DOCS).to_string(),
                    1 => {
                        let c = corpus();
                        let f = &c[s.below(c.len() as u32) as usize];
                        f[s.below(f.len() as u32) as usize].clone()
                    }
                    2 if s.pct(20) => good_document(s),
                    _ => {
                        let ws = [Ws::Canon, Ws::Light, Ws::Min][s.below(3) as usize];
                        derived_text(s, &p, "Definition", ws)
                    }
                };
                if t.contains("//") { format!("{}\n", t) } else { t }
            })
            .collect();
        let texts: Vec<String> = texts;
        if s.pct(15) {
            return Case { kind: "defs".into(), texts: texts.iter().map(|t| dressed_doc(t, 3)).collect() };
        }
        Case { kind: "defs".into(), texts }
    },
    eval: judge_independent,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        for a in DOCS {
            for b in DOCS {
                sh.go(|| Case { kind: "defs".into(), texts: vec![a.to_string(), b.to_string()] });
            }
            // the same names everywhere
            for (i, b) in DOCS.iter().enumerate() {
                for d in [1, 3, 6] {
                    sh.go(|| Case { kind: "defs".into(), texts: vec![dressed_doc(a, d), dressed_doc(b, d)] });
                }
                for c in DOCS.iter().skip(i % 7).step_by(if thorough { 1 } else { 7 }) {
                    sh.go(|| Case { kind: "defs".into(), texts: vec![dressed_doc(a, 3), dressed_doc(b, 3), dressed_doc(c, 3)] });
                }
            }
            for n in ladder(if thorough { 1 << 14 } else { 1 << 12 }) {
                if n > 1 {
                    sh.go(|| Case { kind: "defs".into(), texts: vec![a.to_string(); n] });
                }
            }
        }
        // members of one kind of body, taken from the samples
        for k in 0..MEMBER_CTX.len() {
            let mut pool: Vec<String> = vec![];
            for j in 0..if thorough { 120 } else { 50 } {
                let mut s = Src::random(55_000 + (k * 1000 + j) as u64);
                let p = Profile { mean: 1, budget: 10, type_depth: 1, big: 0, nasty_str: 0, ..BASE };
                pool.push(join(&derive(&mut s, &p, BODY_RULES[k]).0));
            }
            pool.sort();
            pool.dedup();
            for a in &pool {
                for b in &pool {
                    sh.go(|| Case { kind: format!("members:{}", k), texts: vec![a.clone(), b.clone()] });
                    sh.go(|| Case { kind: format!("members:{}", k), texts: vec![dressed_doc(a, 3), dressed_doc(b, 3)] });
                }
            }
            for n in [9, 33, 65, 129, 257, 1025, 4097] {
                sh.go(|| Case { kind: format!("members:{}", k), texts: pool.iter().cycle().take(n).cloned().collect() });
            }
        }
    },
    quick: 150_000,
    thorough: 5_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};
