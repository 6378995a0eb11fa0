//! C02..C07: one construct in every place it may stand, against the reference, both ways.

use super::*;

/// A slot filled with a derivation of its rule (or of another one), sometimes edited.
fn slot_case(s: &mut Src, ctxs: &[Ctx], others: &[&'static str], p: &Profile, edit: u32) -> Case {
    let (rule, pre, post) = *s.pick(ctxs);
    let rule = if s.pct(15) { *s.pick(others) } else { rule };
    let (mid, tree, amb) = derive(s, p, rule);
    if !amb && mid.len() % 8 == 1 {
        self_check(&join(&mid), rule, &tree);
    }
    let mut toks = toks_of(pre);
    let lo = toks.len();
    let n = mid.len();
    toks.extend(mid);
    toks.extend(toks_of(post));
    if s.pct(edit) {
        let k = 1 + s.count(1, 3);
        let mut hi = lo + n;
        for _ in 0..k {
            let before = toks.len();
            mutate_tokens(s, &mut toks, lo, hi);
            hi = (hi + toks.len()).saturating_sub(before).max(lo);
        }
    }
    // surroundings: other definitions before or after
    if s.pct(10) {
        let x = *s.pick(DOCS);
        let mut v = toks_of(x);
        if s.pct(50) {
            v.extend(toks);
            toks = v;
        } else {
            toks.extend(v);
        }
    }
    let ws = any_ws(s);
    Case::one("doc", render(s, &toks, ws))
}

/// A public grammar type, on a derivation (or edit) of its rule and some text after it.
pub fn direct_case(s: &mut Src, rules: &[&'static str], p: &Profile, edit: u32) -> Case {
    let rule = *s.pick(rules);
    let (mut toks, tree, amb) = derive(s, p, rule);
    if !amb && toks.len() % 8 == 1 {
        self_check(&join(&toks), rule, &tree);
    }
    if s.pct(edit) {
        let n = toks.len();
        mutate_tokens(s, &mut toks, 0, n);
    }
    let ws = any_ws(s);
    let mut t = render(s, &toks, ws);
    if s.pct(50) {
        t.push_str(&continuation(s));
    }
    Case::one(&format!("rule:{}", rule), t)
}

pub fn continuation(s: &mut Src) -> String {
    let mut t = String::new();
    if s.pct(50) {
        t.push_str(s.pick(&[" ", "\n", "/*c*/", " //c\n ", "  "]));
    }
    if s.pct(60) {
        t.push_str(&vocab(s));
        if s.pct(40) {
            t.push_str(s.pick(&[" ", "", "\t"]));
            t.push_str(&vocab(s));
        }
    } else {
        t.push_str(&nasty_text(s, 2, &[]));
    }
    t
}

// ---------------------------------------------------------------- C02 types

const TYPE_RULES: &[&str] = &[
    "Type", "SingleType", "NonAnyType", "UnionType", "NullableUnion", "NullableInteger", "NullableFloat",
    "NullableIdentifier", "NullableRecord", "SequenceType", "FrozenArrayType", "PromiseType", "RecordType",
    "RecordKeyType", "IntegerType", "LongLongType", "LongType", "ShortType", "FloatingPointType", "FloatType",
    "DoubleType", "UnionMemberType", "ConstType", "ReturnType", "AttributedType", "AttributedNonAnyType",
];
const TYPE_OTHER: &[&str] = &["Type", "ReturnType", "ConstType", "AttributedType", "RecordKeyType", "UnionMemberType", "UnionType"];
const TYPE_PROFILE: Profile = Profile {
    type_depth: 4,
    attr: 12,
    kwish: 10,
    keyword: 2,
    mean: 2,
    big: 1,
    big_max: 1 << 10,
    weights: &[
        ("NonAnyType::Identifier", 4), ("NonAnyType::Integer", 8), ("NonAnyType::FloatingPoint", 4),
        ("NonAnyType::Sequence", 6), ("NonAnyType::RecordType", 6), ("NonAnyType::Promise", 4),
        ("NonAnyType::FrozenArrayType", 4), ("Type::Single", 3), ("UnionMemberType::Single", 3),
        ("SingleType::NonAny", 10),
    ],
    ..BASE
};
const TYPE_WORDS: &[&str] = &[
    "long", "unsigned", "short", "unrestricted", "float", "double", "any", "undefined", "sequence", "FrozenArray",
    "Promise", "record", "<", ">", "(", ")", "or", ",", "?", "Foo", "DOMString", "boolean", "octet", "[ A ]", "_any", "long_",
    "symbol", "byte", "USVString", "ByteString", "object", "Error", "ArrayBuffer", "DataView", "Int8Array", "Int16Array",
    "Int32Array", "Uint8Array", "Uint16Array", "Uint32Array", "Uint8ClampedArray", "Float32Array", "Float64Array",
    "ArrayBufferView", "BufferSource", "bigint", "void", "string",
];
const SIMPLE: &[&str] = &[
    "any", "undefined", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "float",
    "unrestricted float", "double", "unrestricted double", "boolean", "byte", "octet", "ByteString", "DOMString",
    "USVString", "object", "symbol", "Error", "ArrayBuffer", "DataView", "Int8Array", "Int16Array", "Int32Array",
    "Uint8Array", "Uint16Array", "Uint32Array", "Uint8ClampedArray", "Float32Array", "Float64Array",
    "ArrayBufferView", "BufferSource", "Foo", "_long", "sequence < long >", "FrozenArray < Foo >",
    "Promise < undefined >", "Promise < any >", "record < DOMString , any >", "record < Foo , long >", "( A or B )",
    "( long or sequence < any > ? )", "( A )", "( )", "( A or ( B or C ? ) ? )", "unsigned", "unrestricted", "sequence", "record",
    "Promise", "FrozenArray", "or", "unsigned byte", "unrestricted long", "unsigned Foo", "long long long", "short long", "unsigned unsigned long",
    "unsigned float", "Promise < >", "sequence < >", "record < long >", "record < , >", "sequence < long , long >",
    "sequence < undefined >", "FrozenArray < undefined >", "record < any , any >", "( any or long )", "( undefined or long )",
    "( Promise < any > or long )", "( A or )", "( or A )", "( A B )", "( A , B )", "sequence < [ A ] long >", "[ A ] long", "[ A ] [ B ] long",
    "sequence < long ? > ?", "( [ A ] A or [ B ] B ? )",
];
const TYPE_WRAPS: &[(&str, &str)] = &[
    ("", ""), ("", "?"), ("", "? ?"), ("sequence <", ">"), ("sequence <", "> ?"), ("FrozenArray <", ">"), ("FrozenArray <", "> ?"),
    ("Promise <", ">"), ("Promise <", "> ?"), ("record < DOMString ,", ">"), ("record <", ", any > ?"), ("record <", ", Foo >"),
    ("(", "or Foo )"), ("( Foo or", ") ?"), ("( Foo or [ B ]", "or X ? )"), ("( A or (", "or B ) )"), ("[ A ]", ""), ("[ A , B ]", "?"),
];

pub const C02: Prop = Prop {
    id: "C02",
    rule: "types derived from the grammar (30 % then edited) in 39 positions of a document and through 26 public type parsers, exhaustive short token sequences and nested forms; non-trivial: at least 4 tokens, and judged (same tree, or refused on both sides)",
    gen: |s| match s.below(10) {
        0..=5 => slot_case(s, TYPE_CTX, TYPE_OTHER, &TYPE_PROFILE, 30),
        6 => {
            let (_, pre, post) = *s.pick(TYPE_CTX);
            let n = 1 + s.count(4, 12);
            let mut toks = toks_of(pre);
            for _ in 0..n {
                let w = *s.pick(TYPE_WORDS);
                toks.extend(toks_of(w));
            }
            toks.extend(toks_of(post));
            let ws = any_ws(s);
            Case::one("doc", render(s, &toks, ws))
        }
        _ => direct_case(s, TYPE_RULES, &TYPE_PROFILE, 30),
    },
    eval: judge,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        for t in SIMPLE {
            for (a, b) in TYPE_WRAPS {
                for (_, pre, post) in TYPE_CTX {
                    sh.doc(|| format!("{} {} {} {} {}", pre, a, t, b, post));
                }
                for (a2, b2) in TYPE_WRAPS {
                    for (i, (_, pre, post)) in TYPE_CTX.iter().enumerate() {
                        if thorough || i == 0 {
                            sh.doc(|| format!("{} {} {} {} {} {} {}", pre, a2, a, t, b, b2, post));
                        }
                    }
                }
            }
        }
        let rules = ["Type", "ReturnType", "ConstType", "UnionMemberType", "AttributedType", "RecordKeyType"];
        sh.sequences(TYPE_WORDS.len(), 0, 3, |sh, ix| {
            let t = words(TYPE_WORDS, ix);
            for r in rules {
                sh.go(|| Case::one(&format!("rule:{}", r), t.clone()));
            }
            sh.doc(|| format!("typedef {} x ;", t));
        });
        let n = if thorough { 5 } else { 4 };
        sh.sequences(if thorough { 24 } else { 21 }, 4, n, |sh, ix| {
            sh.doc(|| format!("typedef {} x ;", words(TYPE_WORDS, ix)));
        });
        sh.dressed(TYPE_RULES, TYPE_CTX, if thorough { 8 } else { 2 }, thorough);
        sh.alikes(TYPE_RULES, TYPE_CTX, if thorough { 20 } else { 4 }, &MEDIUM);
        sh.inflate_rules(TYPE_RULES, 3, &SMALL);
        sh.inflate_slots(TYPE_CTX, 2, &SMALL);
        sh.scales(&["union", "typelen", "seq", "seq?", "frozen", "promise", "recordv", "recordk", "unionl", "unionr"], 150);
        sh.scales(&["union", "typelen"], if thorough { 1 << 17 } else { 1 << 14 });
    },
    quick: 2_400_000,
    thorough: 40_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};

pub const ASSUME: &[&str] = &[
    "the reference grammar in harness/src/grammar.rs states the documented grammar (doc comments of /repo/src) correctly",
    "nesting of extended attributes inside extended attributes is kept at most 2 deep in generated inputs (see known findings of C15)",
];

// ---------------------------------------------------------------- C03 members

const MEMBER_RULES: &[&str] = &[
    "InterfaceMembers", "InterfaceMember", "ConstMember", "AttributeInterfaceMember", "ConstructorInterfaceMember",
    "OperationInterfaceMember", "IterableInterfaceMember", "SingleTypedIterable", "DoubleTypedIterable",
    "AsyncIterableInterfaceMember", "SingleTypedAsyncIterable", "DoubleTypedAsyncIterable", "MaplikeInterfaceMember",
    "SetlikeInterfaceMember", "StringifierMember", "Special", "StringifierOrInheritOrStatic", "StringifierOrStatic",
    "MixinMembers", "MixinMember", "OperationMixinMember", "AttributeMixinMember", "NamespaceMembers", "NamespaceMember",
    "ConstNamespaceMember", "OperationNamespaceMember", "AttributeNamespaceMember", "DictionaryMembers", "DictionaryMember",
    "Inheritance",
];
const MEMBER_PROFILE: Profile = Profile { mean: 3, keyword: 3, kwish: 8, type_depth: 2, big: 2, big_max: 1 << 11, ..BASE };
const MODIFIERS: &[&str] = &[
    "static", "stringifier", "inherit", "readonly", "getter", "setter", "deleter", "legacycaller", "required", "async",
    "const", "attribute", "unsigned", "[ A ]",
];
const TAILS: &[&str] = &[
    "attribute long a ;", "long f ( ) ;", "long ( ) ;", "undefined f ( long a ) ;", "any ( any b ) ;", "attribute a ;", "f ( ) ;", "a ;",
    "maplike < long , any > ;", "maplike < long > ;", "setlike < long > ;", "setlike < long , any > ;", "iterable < long > ;",
    "iterable < long , any > ;", "async iterable < long > ;", "async iterable < long , any > ;", "async iterable < long > ( ) ;",
    "async iterable < long , any > ( long a ) ;", "iterable < long > ( ) ;", "const long A = 1 ;", "const Foo A = null ;", "const long ? A = true ;",
    "const DOMString A = 1 ;", "const long A = \"s\" ;", "const long A = [ ] ;", "constructor ( ) ;", "constructor ( long a ) ;", "constructor ;", ";",
    "long a ;", "long a = 1 ;", "DOMString a = \"s\" ;", "long a = [ ] ;", "long a = { } ;", "long ;", "long a", "( A or B ) f ( ) ;", "( A or B ) ( ) ;", "( A or B ) a ;",
    "constructor a ( ) ;", "attribute [ B ] long a ;", "[ B ] long f ( ) ;", "readonly attribute long a ;", "long f ;", "long f ( ) = 1 ;", "long f ( ) { } ;",
    "attribute long a = 1 ;", "attribute undefined a ;", "undefined a ;", "undefined ( ) ;", "long getter ( ) ;", "getter ( ) ;", "Promise < undefined > f ( ) ;",
    "attribute long a ; attribute long b ;", "attribute long a , b ;", "",
];

pub const C03: Prop = Prop {
    id: "C03",
    rule: "member lists derived from the grammar (35 % then edited, 15 % of another body kind) in 11 body positions and through 30 public member parsers; exhaustive modifier sequences x member tails x bodies; member counts up to 16384; non-trivial: at least 4 tokens, and judged",
    gen: |s| match s.below(10) {
        0..=6 => slot_case(s, MEMBER_CTX, &["InterfaceMembers", "MixinMembers", "NamespaceMembers", "DictionaryMembers"], &MEMBER_PROFILE, 35),
        7 => {
            let (_, pre, post) = *s.pick(MEMBER_CTX);
            let mut toks = toks_of(pre);
            for _ in 0..1 + s.count(1, 3) {
                for _ in 0..s.count(2, 5) {
                    let m = *s.pick(MODIFIERS);
                    toks.extend(toks_of(m));
                }
                let t = *s.pick(TAILS);
                toks.extend(toks_of(t));
            }
            toks.extend(toks_of(post));
            let ws = any_ws(s);
            Case::one("doc", render(s, &toks, ws))
        }
        _ => direct_case(s, MEMBER_RULES, &MEMBER_PROFILE, 30),
    },
    eval: judge,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        sh.sequences(MODIFIERS.len(), 0, 3, |sh, ix| {
            let m = words(MODIFIERS, ix);
            for t in TAILS {
                for (i, (_, pre, post)) in MEMBER_CTX.iter().enumerate() {
                    if thorough || ix.len() < 2 || matches!(i, 0 | 4 | 6 | 8) {
                        sh.doc(|| format!("{} {} {} {}", pre, m, t, post));
                    }
                }
            }
        });
        for a in TAILS {
            for b in TAILS {
                for (_, pre, post) in MEMBER_CTX {
                    sh.doc(|| format!("{} {} {} {}", pre, a, b, post));
                }
            }
        }
        sh.dressed(MEMBER_RULES, MEMBER_CTX, if thorough { 15 } else { 4 }, thorough);
        sh.alikes(MEMBER_RULES, MEMBER_CTX, if thorough { 60 } else { 12 }, &MEDIUM);
        sh.inflate_rules(MEMBER_RULES, 3, &SMALL);
        sh.inflate_slots(MEMBER_CTX, 3, &SMALL);
        sh.scales(&["ifmembers", "opmembers", "mixmembers", "nsmembers", "dictmembers"], if thorough { 1 << 17 } else { 1 << 14 });
    },
    quick: 700_000,
    thorough: 25_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- C04 arguments

const ARG_RULES: &[&str] = &["ArgumentList", "Argument", "SingleArgument", "VariadicArgument", "Args", "Default", "DefaultValue"];
const ARG_PROFILE: Profile = Profile { mean: 3, opt: 50, keyword: 3, attr: 20, type_depth: 2, big: 2, big_max: 1 << 11, ..BASE };
const ARG_WORDS: &[&str] = &[
    "optional", "long", "a", "...", "=", "5", "null", ",", "[ A ]", "any", "( A or B )", "\"s\"", "[ ]", "{ }",
];
const DEFAULTS: &[&str] = &[
    "5", "-5", "0", "0x1F", "-0X0", "017", "1.5", "-.5", "1e3", "1.", "Infinity", "-Infinity", "NaN", "true", "false", "null", "\"\"", "\"a b\"",
    "[]", "{}", "[ ]", "{ }", "[ 1 ]", "{ a }", "a", "True", "undefined", "any", "5 5", "- 5", "+5", "0x", "1e", ".", "\"a", "'a'", "-infinity", "nan", "( )", "default", "",
];

pub const C04: Prop = Prop {
    id: "C04",
    rule: "argument lists derived from the grammar (35 % then edited) in 11 positions and through 7 public argument parsers; exhaustive token sequences up to length 5; all default values x positions; lists up to 16384 arguments; non-trivial: at least 4 tokens, and judged",
    gen: |s| match s.below(10) {
        0..=6 => slot_case(s, ARG_CTX, &["Argument", "IdentifierList", "ArgumentList"], &ARG_PROFILE, 35),
        7 => {
            let (_, pre, post) = *s.pick(ARG_CTX);
            let mut toks = toks_of(pre);
            for _ in 0..1 + s.count(6, 14) {
                let w = *s.pick(ARG_WORDS);
                toks.extend(toks_of(w));
            }
            toks.extend(toks_of(post));
            let ws = any_ws(s);
            Case::one("doc", render(s, &toks, ws))
        }
        _ => direct_case(s, ARG_RULES, &ARG_PROFILE, 35),
    },
    eval: judge,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        for (_, pre, post) in ARG_CTX {
            for d in DEFAULTS {
                for a in ["optional long a =", "long a =", "optional [ X ] Foo ? a =", "[ X ] optional any a =", "long ... a =", "optional long ... a =", "long b , optional long a =", "optional a ="] {
                    for z in ["", ", long z", ", optional long z = 1", ",", "= 5"] {
                        sh.doc(|| format!("{} {} {} {} {}", pre, a, d, z, post));
                    }
                }
            }
        }
        sh.sequences(ARG_WORDS.len(), 0, if thorough { 6 } else { 5 }, |sh, ix| {
            sh.doc(|| format!("callback C = undefined ( {} ) ;", words(ARG_WORDS, ix)));
            if ix.len() < 5 {
                sh.go(|| Case::one("rule:ArgumentList", words(ARG_WORDS, ix)));
                for (_, pre, post) in ARG_CTX {
                    sh.doc(|| format!("{} {} {}", pre, words(ARG_WORDS, ix), post));
                }
            }
        });
        sh.dressed(ARG_RULES, ARG_CTX, if thorough { 15 } else { 4 }, thorough);
        sh.alikes(ARG_RULES, ARG_CTX, if thorough { 60 } else { 8 }, &MEDIUM);
        sh.inflate_rules(ARG_RULES, 4, &SMALL);
        sh.inflate_slots(ARG_CTX, 3, &SMALL);
        sh.scales(&["args", "args-opt", "args-ctor"], if thorough { 1 << 17 } else { 1 << 14 });
    },
    quick: 900_000,
    thorough: 30_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- C05 attributes

const ATTR_RULES: &[&str] = &[
    "ExtendedAttributeList", "ExtendedAttribute", "ExtendedAttributeArgList", "ExtendedAttributeNamedArgList",
    "ExtendedAttributeIdentList", "ExtendedAttributeIdent", "ExtendedAttributeWildCard", "ExtendedAttributeNoArgs",
    "IdentifierOrString", "IdentifierList", "ParenIdents",
];
const ATTR_PROFILE: Profile = Profile { mean: 2, attr: 45, keyword: 5, kwish: 10, type_depth: 1, big: 2, big_max: 1 << 11, ..BASE };
const ATTR_WORDS: &[&str] = &["A", "B", "=", "(", ")", ",", "*", "\"s\"", "long a", "[", "]", "1", "optional", "..."];
const FORMS: &[&str] = &[
    "A", "A = B", "A = \"s\"", "A = \"\"", "A = *", "A = ( B )", "A = ( B , C )", "A = ( )", "A ( )", "A ( long a )",
    "A ( long a , optional any b = null )", "A ( long ... a )", "A = B ( )", "A = B ( long a )", "A = B ( [ X ] long a , any b )", "_A",
    "A = _interface", "Exposed = ( Window , Worker )", "A = ( \"s\" )", "A = 1", "A = 1.5", "A = ( B , )", "A = ( , )", "A ( long )", "A ( a , b )", "A = ( * )", "* = A",
    "A = B C", "A B", "A = = B", "A =", "= A", "A = \"s\" ( )", "A = B = C", "A ( ) ( )", "A = * ( )", "A = ( B ) ( )", "A [ ]", "\"A\"", "1", "", "A = B ( ) C",
    "long", "interface = enum", "typedef ( any or_ )", "A = true", "A = null", "A = -Infinity", "A = Infinity", "A = [ ]", "A = { }", "A = long long",
];

pub const C05: Prop = Prop {
    id: "C05",
    rule: "attribute lists derived from the grammar (30 % then edited) in 63 positions (57 documented, 6 not) and through 11 public attribute parsers; exhaustive token sequences up to length 5; all forms x all positions, pairs of forms; lists up to 16384 long; non-trivial: at least 4 tokens, and judged",
    gen: |s| match s.below(10) {
        0..=5 => slot_case(s, ATTR_CTX, &["ExtendedAttributeList", "EmptyArrayLit"], &ATTR_PROFILE, 30),
        6 => {
            let r = *s.pick(&["Definitions", "InterfaceMembers"]);
            let p = Profile { attr: 60, mean: 1, type_depth: 2, ..BASE };
            let ws = any_ws(s);
            if r == "Definitions" {
                let t = derived_text(s, &p, r, ws);
                Case::one("doc", t)
            } else {
                slot_case(s, MEMBER_CTX, &["InterfaceMembers"], &p, 10)
            }
        }
        7 => {
            let (_, pre, post) = *s.pick(ATTR_CTX);
            let mut toks = toks_of(pre);
            toks.push(Tk::new("["));
            for _ in 0..1 + s.count(5, 12) {
                let w = *s.pick(ATTR_WORDS);
                toks.extend(toks_of(w));
            }
            toks.push(Tk::new("]"));
            toks.extend(toks_of(post));
            let ws = any_ws(s);
            Case::one("doc", render(s, &toks, ws))
        }
        _ => direct_case(s, ATTR_RULES, &ATTR_PROFILE, 35),
    },
    eval: judge,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        for (_, pre, post) in ATTR_CTX {
            for f in FORMS {
                sh.doc(|| format!("{} [ {} ] {}", pre, f, post));
                sh.doc(|| format!("{} [ {} ] [ Q ] {}", pre, f, post));
                sh.doc(|| format!("{} [ Q , {} , R ] {}", pre, f, post));
            }
            sh.doc(|| format!("{} {}", pre, post));
        }
        for f in FORMS {
            for g in FORMS {
                for (i, (_, pre, post)) in ATTR_CTX.iter().enumerate() {
                    if thorough || i % 9 == 0 {
                        sh.doc(|| format!("{} [ {} , {} ] {}", pre, f, g, post));
                    }
                }
            }
        }
        // where lists may touch: the same construct with a list in each subset of its places
        for a in ["", "[ A ]", "[ A = B ( long x ) ]"] {
            for b in ["", "[ B ]"] {
                for c in ["", "[ C = \"s\" ]"] {
                    for t in [
                        "@ interface I { @ undefined f ( @ long a , @ long b ) ; } ;",
                        "@ interface I { @ undefined f ( @ optional @ long a = 5 ) ; } ;",
                        "@ typedef @ long a ; @ typedef @ long b ;",
                        "@ interface I { @ attribute @ long a ; @ stringifier ; } ;",
                        "@ interface I { @ maplike < @ long , @ long > ; } ;",
                        "@ typedef ( @ long or @ Foo ? or ( @ A or @ B ) ) x ;",
                        "@ callback C = any ( @ long ... a , @ any b ) ;",
                        "@ dictionary D { @ required @ long a ; @ long b ; } ;",
                        "@ partial interface mixin M { @ const long A = 1 ; @ any ( @ any a ) ; } ;",
                        "@ namespace N { @ readonly attribute @ long a ; @ any f ( ) ; } ;",
                        "@ interface I { @ async iterable < @ long , @ any > ( @ long a ) ; @ setlike < @ A > ; } ;",
                        "@ enum E { \"a\" } ; @ A includes B ; @ A implements B ; @ callback interface X { } ;",
                    ] {
                        let parts: Vec<&str> = t.split('@').collect();
                        let k = parts.len() - 1;
                        for mask in 0..1usize << (2 * k).min(if thorough { 12 } else { 10 }) {
                            sh.doc(|| {
                                let mut o = parts[0].to_string();
                                for (j, p) in parts[1..].iter().enumerate() {
                                    o.push_str([a, b, c, ""][(mask >> (2 * j)) & 3]);
                                    o.push_str(p);
                                }
                                o
                            });
                        }
                    }
                }
            }
        }
        sh.sequences(ATTR_WORDS.len(), 0, if thorough { 6 } else { 5 }, |sh, ix| {
            sh.doc(|| format!("[ {} ] typedef long x ;", words(ATTR_WORDS, ix)));
            if ix.len() < 4 {
                sh.go(|| Case::one("rule:ExtendedAttribute", words(ATTR_WORDS, ix)));
            }
        });
        sh.dressed(ATTR_RULES, ATTR_CTX, if thorough { 8 } else { 2 }, thorough);
        sh.alikes(ATTR_RULES, ATTR_CTX, if thorough { 60 } else { 8 }, &MEDIUM);
        sh.inflate_rules(ATTR_RULES, 4, &SMALL);
        sh.inflate_slots(ATTR_CTX, 2, &SMALL);
        sh.scales(&["attrs", "attrs-mixed", "idents"], if thorough { 1 << 17 } else { 1 << 14 });
        sh.scales(&["attrstr"], 1 << 16);
    },
    quick: 1_100_000,
    thorough: 25_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- C06 literals

/// The literal parsers on their own, from the regular expressions of the documentation.
fn lit_oracle(name: &str, s: &str) -> Option<(T, usize)> {
    let lead = trivia_len(s);
    let b = &s[lead..];
    let word = |w: &str| (b.starts_with(w) && !b[w.len()..].bytes().next().map_or(false, is_word_byte)).then_some(w.len());
    let one = |n: &'static str, l: Option<usize>| l.map(|l| (node(n, vec![leaf(&b[..l])]), l));
    let alt = |n: &'static str, x: Option<(T, usize)>| x.map(|(t, l)| (node(n, vec![t]), l));
    let kw = |n: &'static str, w: &str| word(w).map(|l| (node(n, vec![leaf(w)]), l));
    let dec = || one("DecLit", lex::match_dec(b));
    let hex = || one("HexLit", lex::match_hex(b));
    let oct = || one("OctLit", lex::match_oct(b));
    let int = || {
        alt("IntegerLit::Dec", dec()).or_else(|| alt("IntegerLit::Hex", hex())).or_else(|| alt("IntegerLit::Oct", oct()))
    };
    let fv = || one("FloatValueLit", lex::match_float(b));
    let float = || {
        alt("FloatLit::Value", fv())
            .or_else(|| kw("FloatLit::NegInfinity", "-Infinity"))
            .or_else(|| kw("FloatLit::Infinity", "Infinity"))
            .or_else(|| kw("FloatLit::NaN", "NaN"))
    };
    let boolean = || kw("BooleanLit", "true").or_else(|| kw("BooleanLit", "false"));
    let st = || one("StringLit", lex::match_str(b));
    let pair = |n: &'static str, o: &str, c: &str| {
        let r = b.strip_prefix(o)?;
        let k = o.len() + trivia_len(r);
        b[k..].starts_with(c).then(|| (node(n, vec![leaf(o), leaf(c)]), k + c.len()))
    };
    let r = match name {
        "DecLit" => dec(),
        "HexLit" => hex(),
        "OctLit" => oct(),
        "IntegerLit" => int(),
        "FloatValueLit" => fv(),
        "FloatLit" => float(),
        "StringLit" => st(),
        "BooleanLit" => boolean(),
        "DefaultValue" => alt("DefaultValue::Boolean", boolean())
            .or_else(|| alt("DefaultValue::EmptyArray", pair("EmptyArrayLit", "[", "]")))
            .or_else(|| alt("DefaultValue::EmptyDictionary", pair("EmptyDictionaryLit", "{", "}")))
            .or_else(|| alt("DefaultValue::Float", float()))
            .or_else(|| alt("DefaultValue::Integer", int()))
            .or_else(|| kw("DefaultValue::Null", "null"))
            .or_else(|| alt("DefaultValue::String", st())),
        "ConstValue" => alt("ConstValue::Boolean", boolean())
            .or_else(|| alt("ConstValue::Float", float()))
            .or_else(|| alt("ConstValue::Integer", int()))
            .or_else(|| kw("ConstValue::Null", "null")),
        "Identifier" => {
            lex::match_word(b).map(|l| (node("Identifier", vec![leaf(b[..l].strip_prefix('_').unwrap_or(&b[..l]))]), l))
        }
        _ => unreachable!(),
    };
    r.map(|(t, l)| (t, lead + l + trivia_len(&b[l..])))
}

fn judge_lit(name: &str, s: &str) -> Verdict {
    let f = entries::LITS.iter().find(|e| e.0 == name).unwrap().1;
    match (lit_oracle(name, s), f(s)) {
        (Some((t, rest)), Out::Ok { tree, rest: got }) if tree == t && rest == got => pass(s.len() > 1, "literal, same text"),
        (None, Out::Err { .. }) => pass(!s.is_empty(), "not a literal"),
        (x, o) => Verdict::Fail(format!(
            "{}: expected {}\n  actual {}",
            name,
            x.map_or("refused".into(), |(t, r)| format!("accepted, rest at {}: {}", r, t.show(900))),
            o.show()
        )),
    }
}

pub fn judge_lits(c: &Case) -> Verdict {
    if c.kind == "ident" {
        return judge_lit("Identifier", &c.texts[0]);
    }
    if c.kind == "lits" {
        let mut last = pass(false, "none");
        for (n, _) in entries::LITS {
            match judge_lit(n, &c.texts[0]) {
                Verdict::Pass { nontrivial, label } => last = pass(nontrivial, label),
                x => return x,
            }
        }
        return last;
    }
    judge(c)
}

const LIT_CHARS: &[&str] = &["0", "1", "7", "8", "9", ".", "e", "E", "+", "-", "x", "X", "a", "F"];
const LIT_PROFILE: Profile = Profile { nasty_str: 80, big: 30, big_max: 1 << 12, keyword: 0, ..BASE };

fn literal(s: &mut Src) -> String {
    let mut g = Gen::new(s, &LIT_PROFILE);
    match g.s.below(6) {
        0 => g.dec(),
        1 => g.hex(),
        2 => g.oct(),
        3 => g.float(),
        4 => g.string(),
        _ => g.s.pick(&["true", "false", "null", "Infinity", "-Infinity", "NaN", "[]", "{}", "[ ]", "{ }"]).to_string(),
    }
}

pub const C06: Prop = Prop {
    id: "C06",
    rule: "exhaustive strings of up to 5 characters over 0 1 7 8 9 . e E + - x X a F through 10 literal parsers and in const and default positions; random literals of all kinds with edits, in 11 positions; lengths up to 65536; non-trivial: more than one character and judged",
    gen: |s| {
        let mut l = literal(s);
        for _ in 0..[0, 0, 1, 1, 2][s.below(5) as usize] {
            match s.below(3) {
                0 => mutate_text(s, &mut l),
                1 => {
                    let c = *s.pick(LIT_CHARS);
                    let cs: Vec<usize> = l.char_indices().map(|x| x.0).chain([l.len()]).collect();
                    let at = *s.pick(&cs);
                    l.insert_str(at, c);
                }
                _ => {
                    let x = literal(s);
                    if s.pct(50) {
                        l.push_str(s.pick(&["", " ", ".", "-", "/**/"]));
                    }
                    l.push_str(&x);
                }
            }
        }
        if s.pct(40) {
            if s.pct(40) {
                l = format!("{}{}", trivia(s, 1), l);
            }
            if s.pct(60) {
                l.push_str(&continuation(s));
            }
            return Case::one("lits", l);
        }
        let (_, pre, post) = *s.pick(LIT_CTX);
        let (a, b) = (*s.pick(&[" ", "", "\n", "/*x*/"]), *s.pick(&[" ", "", "\t", "//\n"]));
        Case::one("doc", format!("{}{}{}{}{}", pre, a, l, b, post))
    },
    eval: judge_lits,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        let n = if thorough { 6 } else { 5 };
        sh.sequences(LIT_CHARS.len(), 0, n, |sh, ix| {
            let t: String = ix.iter().map(|i| LIT_CHARS[*i]).collect();
            sh.go(|| Case::one("lits", t.clone()));
            if ix.len() < n {
                sh.doc(|| format!("interface I {{ const long x ={} ; }} ;", t));
                sh.doc(|| format!("dictionary D {{ long x = {}; }} ;", t));
            }
        });
        // strings: every pair of awkward pieces, in every position of a string
        for a in NASTY {
            for b in NASTY {
                sh.go(|| Case::one("lits", format!("\"{}{}\" \"{}", a, b, a)));
                sh.doc(|| format!("enum E {{ \"{}{}\", \"{}\" }};", a, b, b));
                sh.doc(|| format!("[A=\"{}\"] dictionary D {{ DOMString s = \"{}{}\"; }};", a, a, b));
            }
        }
        for c in 0..=0x2ffu32 {
            if let Some(c) = char::from_u32(c) {
                for t in ["1@", "0@", "-@", "0x@", "0x1@", "1.@", ".@", "1e@", "1e+@", "1.5e1@", "\"@\"", "\"a@b\"", "true@", "null@", "-Infinity@", "NaN@", "[@]", "{@}", "@1", "@\"a\"", "01@", "@", "1@0", "0@1", "0@11", "0x@1", "0x1@2", "1.5@0", "1e1@0", "1.@5", "-@1", ".@5", "01@7", "@-1", "'@'", "1@", "\"a\"@", "\"a\"@\"b\"", "-Inf@inity", "tr@ue"] {
                    sh.go(|| Case::one("lits", t.replace('@', &c.to_string())));
                    sh.doc(|| format!("dictionary D {{ any x = {}; }};", t.replace('@', &c.to_string())));
                }
            }
        }
        // every character, alone in a string and among its neighbours
        let step = if thorough { 1 } else { 7 };
        for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
            if c != '"' && ((c as u32) < 0x3100 || c as u32 % step == 0) {
                sh.go(|| Case::one("doc", format!("enum E {{\"{}\"}};", c)));
            }
        }
        for b in (0..=0x10ffu32).map(|b| b << 8) {
            let t: String = (b..b + 256).filter_map(char::from_u32).filter(|c| *c != '"').collect();
            sh.doc(|| format!("[A=\"{}\"] dictionary D {{ any x = \"{}\"; }};", t, t));
            sh.go(|| Case::one("lits", format!("\"{}\" x", t)));
        }
        // what the source of the parser mentions
        for w in &dict().words {
            let q = w.replace('"', "");
            sh.go(|| Case::one("lits", w.clone()));
            sh.go(|| Case::one("lits", format!("\"{}\" x", q)));
            for (_, pre, post) in LIT_CTX {
                sh.doc(|| format!("{} {} {}", pre, w, post));
                for f in ["", " ", "x"] {
                    for b in ["", " ", "x"] {
                        sh.doc(|| format!("{} \"{}{}{}\" {}", pre, f, q, b, post));
                    }
                }
            }
        }
        for c in &dict().chars {
            for t in ["\"@\"", "\"a@b\"", "\"@@\"", "\"a @\"", "\"@ \"", "@", "1@", "@1", "0x@", "1e@"] {
                sh.go(|| Case::one("lits", t.replace('@', &c.to_string())));
                for (_, pre, post) in LIT_CTX {
                    sh.doc(|| format!("{} {} {}", pre, t.replace('@', &c.to_string()), post));
                }
            }
        }
        for n in &dict().sizes {
            for t in [format!("{}", n), format!("-{}", n), format!("0x{:x}", n), format!("0X{:X}", n), format!("-0x{:X}", n), format!("0{:o}", n), format!("{}.0", n), format!("{}e1", n), format!("1e{}", n), format!("-.{}", n)] {
                sh.go(|| Case::one("lits", format!("{} ;", t)));
                for (_, pre, post) in LIT_CTX {
                    sh.doc(|| format!("{} {} {}", pre, t, post));
                }
            }
        }
        for (_, pre, post) in LIT_CTX {
            for d in DEFAULTS {
                sh.doc(|| format!("{} {} {}", pre, d, post));
            }
        }
        sh.dressed(&[], LIT_CTX, if thorough { 8 } else { 2 }, thorough);
        for d in DOCS {
            sh.alike("doc", "", &toks_of(d), "");
        }
        sh.wide(|sh, t| { sh.doc(|| format!("enum E {{ \"{}\" }}; [A=\"{}\"] dictionary D {{ any a = \"{}\"; }};", t, t, t)); });
        sh.inflate_slots(LIT_CTX, 4, &SMALL);
        sh.scales(&["dec", "hex", "oct", "float-int", "float-frac", "float-exp", "strlen", "attrstr"], if thorough { 1 << 20 } else { 1 << 16 });
    },
    quick: 3_000_000,
    thorough: 40_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};

// ---------------------------------------------------------------- C07 words

const ID_CHARS: &[&str] = &["a", "Z", "0", "_", "-", "é", ".", " "];

fn near(k: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![
        k.to_string(), format!("_{}", k), format!("__{}", k), format!("-{}", k), format!("{}_", k), format!("{}-", k), format!("{}0", k), format!("{}9x", k), format!("{}x", k),
        format!("{}Z", k), format!("x{}", k), format!("X_{}", k), format!("{}__", k), format!("{}-{}", k, k), format!("{}{}", k, k), format!("{}_long", k),
        format!("{}or", k), format!("{}é", k), format!("{}.", k), format!("{} {}", k, k), format!("{}\u{a0}", k), k.to_uppercase(), k.to_lowercase(),
        format!("{}?", k), format!("_{}_", k), format!("{}-x", k), format!("{}A", k), format!("{}z", k), format!("{}a", k),
    ];
    let mut c: Vec<char> = k.chars().collect();
    if c.len() > 1 {
        v.push(c[1..].iter().collect());
        v.push(c[..c.len() - 1].iter().collect());
    }
    c[0] = if c[0].is_ascii_uppercase() { c[0].to_ascii_lowercase() } else { c[0].to_ascii_uppercase() };
    v.push(c.iter().collect());
    let l = c.len() - 1;
    c[l] = if c[l].is_ascii_uppercase() { c[l].to_ascii_lowercase() } else { c[l].to_ascii_uppercase() };
    v.push(c.iter().collect());
    v
}

pub const C07: Prop = Prop {
    id: "C07",
    rule: "66 keywords x 33 near-keyword spellings x 70 name positions, the same for every word of 56 sample documents, exhaustive short identifiers, and random documents whose names are keywords, near-keywords and unusual identifiers; non-trivial: at least 4 tokens (or 2 characters for identifiers alone), and judged",
    gen: |s| {
        let p = Profile { kwish: 45, weird: 25, keyword: [0, 0, 8, 30][s.below(4) as usize], mean: 1, big: 3, big_max: 1 << 12, ..BASE };
        match s.below(10) {
            0..=3 => {
                let r = ["Definition", "Definitions"][s.below(2) as usize];
                let ws = any_ws(s);
                let mut t = derived_text(s, &p, r, ws);
                if s.pct(15) {
                    mutate_text(s, &mut t);
                }
                Case::one("doc", t)
            }
            4 => slot_case(s, TYPE_CTX, TYPE_OTHER, &p, 15),
            5 => slot_case(s, MEMBER_CTX, &["InterfaceMembers"], &p, 15),
            6 => slot_case(s, ATTR_CTX, &["ExtendedAttributeList"], &p, 10),
            7 => {
                let (_, pre, post) = *s.pick(NAME_CTX);
                let k = *s.pick(KEYWORDS);
                let v = near(k);
                let a = s.pick(&v).clone();
                let g = [" ", "", "/**/", "\n"];
                let (x, y) = (*s.pick(&g), *s.pick(&g));
                Case::one("doc", format!("{}{}{}{}{}", pre, x, a, y, post))
            }
            8 => {
                // any tokens of a sample document replaced by near keywords
                let d = *s.pick(DOCS);
                let mut t = toks_of(d);
                for _ in 0..1 + s.count(1, 3) {
                    let i = s.below(t.len() as u32) as usize;
                    if t[i].text.starts_with(|c: char| c.is_ascii_alphabetic()) {
                        t[i].text = if s.pct(50) { s.pick(&near(&t[i].text.clone())).clone() } else { kwish_word(s) };
                    }
                }
                let ws = any_ws(s);
                Case::one("doc", render(s, &t, ws))
            }
            _ => {
                let n = 1 + s.count(4, 20);
                let t: String = (0..n).map(|_| *s.pick(&["a", "Z", "0", "_", "-", "q", "9", "é", "or", "long", " ", "."])).collect();
                Case::one("ident", t)
            }
        }
    },
    eval: judge_lits,
    fixed: |thorough, shard, shards, sink| {
        let mut sh = Shard::new(shard, shards, sink);
        for k in KEYWORDS {
            for n in near(k) {
                for (_, pre, post) in NAME_CTX {
                    sh.doc(|| format!("{} {} {}", pre, n, post));
                }
            }
        }
        for d in DOCS {
            let t = toks_of(d);
            for i in 0..t.len() {
                if !t[i].text.as_bytes()[0].is_ascii_alphabetic() {
                    continue;
                }
                for n in near(&format!("{}q", t[i].text)).iter().chain(&near(&t[i].text)) {
                    let mut u = t.clone();
                    u[i].text = n.clone();
                    sh.doc(|| join(&u));
                }
                // every gap after or before a word closed
                for j in [i, i + 1] {
                    if j > 0 && j < t.len() {
                        sh.doc(|| format!("{}{}", join(&t[..j]), join(&t[j..])));
                    }
                }
            }
        }
        for k in &dict().names {
            for n in near(k) {
                for (_, pre, post) in NAME_CTX {
                    sh.doc(|| format!("{} {} {}", pre, n, post));
                }
            }
        }
        for c in &dict().chars {
            for t in ["@", "a@", "@a", "_@", "a@b", "long@"] {
                for (_, pre, post) in NAME_CTX {
                    sh.doc(|| format!("{} {} {}", pre, t.replace('@', &c.to_string()), post));
                }
            }
        }
        for c in 0..=0x24fu32 {
            if let Some(c) = char::from_u32(c) {
                for t in ["@", "a@", "@a", "_@", "a@b", "long@", "_a@", "a-@", "a0@"] {
                    sh.go(|| Case::one("ident", t.replace('@', &c.to_string())));
                    sh.doc(|| format!("typedef {} x;", t.replace('@', &c.to_string())));
                    sh.doc(|| format!("typedef long {};", t.replace('@', &c.to_string())));
                    sh.doc(|| format!("interface I {{ {} f(); }};", t.replace('@', &c.to_string())));
                }
            }
        }
        let step = if thorough { 1 } else { 11 };
        for c in (0x250..=0x10ffffu32).filter(|c| *c < 0x3100 || c % step == 0 || (0xff00..0xfff0).contains(c)).filter_map(char::from_u32) {
            sh.go(|| Case::one("ident", format!("a{}b", c)));
            sh.go(|| Case::one("ident", c.to_string()));
        }
        sh.sequences(ID_CHARS.len(), 0, if thorough { 6 } else { 5 }, |sh, ix| {
            let t: String = ix.iter().map(|i| ID_CHARS[*i]).collect();
            sh.go(|| Case::one("ident", t.clone()));
            if ix.len() < 5 {
                sh.doc(|| format!("typedef long {};", t));
                sh.doc(|| format!("typedef {} x;", t));
                sh.doc(|| format!("[A={}] enum {} {{\"\"}};", t, t));
            }
        });
        if thorough {
            for k in KEYWORDS {
                for l in KEYWORDS {
                    for (_, pre, post) in NAME_CTX {
                        sh.doc(|| format!("{} {}{} {}", pre, k, l, post));
                        sh.doc(|| format!("{} {} {} {}", pre, k, l, post));
                    }
                }
            }
        }
        sh.inflate_docs("", "", true);
        sh.scales(&["identlen", "typelen", "escaped"], if thorough { 1 << 20 } else { 1 << 16 });
    },
    quick: 1_800_000,
    thorough: 25_000_000,
    hang_is_violation: true,
    finish: nothing,
    assumptions: ASSUME,
};
