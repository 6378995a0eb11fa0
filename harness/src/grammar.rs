//! The documented grammar as data, a memoising reference parser for it (ordered choice, like
//! the documentation's "parses one of"), and the rule table the generators derive from.
//! Works on the tokens of `lex`; uses nothing of weedle's parsing code.

use crate::lex::{lex, Kind, Tok};
use crate::tree::*;
use std::collections::HashMap;

#[derive(Debug)]
pub enum E {
    /// exactly this keyword or symbol
    K(&'static str),
    Ident,
    Str,
    Dec,
    Hex,
    Oct,
    Float,
    /// `true` or `false`
    Bool,
    R(usize),
    Opt(Box<E>),
    Many(Box<E>),
    /// `(item (sep item)*)?`, no trailing separator
    Sep(Box<E>, &'static str),
    /// `item (sep item)* sep?`
    Sep1(Box<E>, &'static str),
    Seq(&'static str, Vec<E>),
    /// labels, alternatives in documented order
    Alt(Vec<(&'static str, E)>),
    /// optional part only if element `n` of the enclosing sequence is present
    OptIf(usize, Box<E>),
}

pub struct Grammar {
    pub names: Vec<&'static str>,
    pub rules: Vec<E>,
    pub index: HashMap<&'static str, usize>,
}

struct B {
    names: Vec<&'static str>,
    rules: Vec<Option<E>>,
    index: HashMap<&'static str, usize>,
}
impl B {
    fn r(&mut self, n: &'static str) -> E {
        E::R(self.id(n))
    }
    fn id(&mut self, n: &'static str) -> usize {
        if let Some(&i) = self.index.get(n) {
            return i;
        }
        let i = self.names.len();
        self.names.push(n);
        self.rules.push(None);
        self.index.insert(n, i);
        i
    }
    fn def(&mut self, n: &'static str, e: E) {
        let i = self.id(n);
        assert!(self.rules[i].is_none(), "rule {} twice", n);
        self.rules[i] = Some(e);
    }
    /// Sequence given as text. Items are blank-separated: `'x'` terminal, `Name` rule, a trailing
    /// `?` or `*` for optional / repeated, and `#Rule,sep` / `+Rule,sep` for separated lists.
    fn seq(&mut self, n: &'static str, items: &'static str) {
        let e = self.seq_e(n, items);
        self.def(n, e);
    }
    fn seq_e(&mut self, n: &'static str, items: &'static str) -> E {
        let v = items.split_whitespace().map(|w| self.item(w)).collect();
        E::Seq(n, v)
    }
    fn item(&mut self, w: &'static str) -> E {
        if w.len() > 1 && w.ends_with('?') {
            return E::Opt(Box::new(self.item(&w[..w.len() - 1])));
        }
        if w.len() > 1 && w.ends_with('*') && !w.starts_with('\'') {
            return E::Many(Box::new(self.item(&w[..w.len() - 1])));
        }
        if let Some(k) = w.strip_prefix('\'') {
            return E::K(k.strip_suffix('\'').unwrap());
        }
        if let Some(x) = w.strip_prefix('#') {
            let (a, s) = x.split_once('%').unwrap();
            return E::Sep(Box::new(self.item(a)), s);
        }
        if let Some(x) = w.strip_prefix('+') {
            let (a, s) = x.split_once('%').unwrap();
            return E::Sep1(Box::new(self.item(a)), s);
        }
        self.r(w)
    }
    /// Choice given as text: `Label=Item` pairs.
    fn alt(&mut self, n: &'static str, alts: &'static str) {
        let v = alts
            .split_whitespace()
            .map(|w| {
                let (l, i) = w.split_once('=').unwrap();
                let label: &'static str = Box::leak(format!("{}::{}", n, l).into_boxed_str());
                (label, self.item(i))
            })
            .collect();
        self.def(n, E::Alt(v));
    }
    /// `MayBeNull<X>` rules, named `X?`
    fn nullable(&mut self, name: &'static str, inner: &'static str) {
        let i = self.item(inner);
        self.def(name, E::Seq("MayBeNull", vec![i, E::Opt(Box::new(E::K("?")))]));
    }
}

pub fn build() -> Grammar {
    let mut b = B { names: vec![], rules: vec![], index: HashMap::new() };

    // tokens
    b.def("Identifier", E::Seq("Identifier", vec![E::Ident]));
    b.def("StringLit", E::Seq("StringLit", vec![E::Str]));
    b.def("DecLit", E::Seq("DecLit", vec![E::Dec]));
    b.def("HexLit", E::Seq("HexLit", vec![E::Hex]));
    b.def("OctLit", E::Seq("OctLit", vec![E::Oct]));
    b.def("FloatValueLit", E::Seq("FloatValueLit", vec![E::Float]));
    b.def("BooleanLit", E::Seq("BooleanLit", vec![E::Bool]));

    // literals
    b.alt("IntegerLit", "Dec=DecLit Hex=HexLit Oct=OctLit");
    b.alt("FloatLit", "Value=FloatValueLit NegInfinity='-Infinity' Infinity='Infinity' NaN='NaN'");
    b.seq("EmptyArrayLit", "'[' ']'");
    b.seq("EmptyDictionaryLit", "'{' '}'");
    b.alt(
        "DefaultValue",
        "Boolean=BooleanLit EmptyArray=EmptyArrayLit EmptyDictionary=EmptyDictionaryLit \
         Float=FloatLit Integer=IntegerLit Null='null' String=StringLit",
    );
    b.alt("ConstValue", "Boolean=BooleanLit Float=FloatLit Integer=IntegerLit Null='null'");
    b.seq("Default", "'=' DefaultValue");

    // extended attributes
    let l = E::Sep(Box::new(b.r("ExtendedAttribute")), ",");
    b.def("ExtendedAttributeList", E::Seq("Bracketed", vec![E::K("["), l, E::K("]")]));
    b.alt(
        "ExtendedAttribute",
        "ArgList=ExtendedAttributeArgList NamedArgList=ExtendedAttributeNamedArgList \
         IdentList=ExtendedAttributeIdentList Ident=ExtendedAttributeIdent \
         Wildcard=ExtendedAttributeWildCard NoArgs=ExtendedAttributeNoArgs",
    );
    b.seq("ExtendedAttributeArgList", "Identifier Args");
    b.seq("ExtendedAttributeNamedArgList", "Identifier '=' Identifier Args");
    b.seq("ExtendedAttributeIdentList", "Identifier '=' ParenIdents");
    b.seq("ExtendedAttributeIdent", "Identifier '=' IdentifierOrString");
    b.seq("ExtendedAttributeWildCard", "Identifier '=' '*'");
    b.seq("ExtendedAttributeNoArgs", "Identifier");
    b.alt("IdentifierOrString", "Identifier=Identifier String=StringLit");
    b.def("IdentifierList", E::Sep(Box::new(E::R(b.index["Identifier"])), ","));
    let l = b.r("IdentifierList");
    b.def("ParenIdents", E::Seq("Parenthesized", vec![E::K("("), l, E::K(")")]));

    // arguments
    let a = b.r("Argument");
    b.def("ArgumentList", E::Sep(Box::new(a), ","));
    let a = b.r("ArgumentList");
    b.def("Args", E::Seq("Parenthesized", vec![E::K("("), a, E::K(")")]));
    b.alt("Argument", "Single=SingleArgument Variadic=VariadicArgument");
    let v = vec![
        E::Opt(Box::new(b.r("ExtendedAttributeList"))),
        E::Opt(Box::new(E::K("optional"))),
        b.r("AttributedType"),
        b.r("Identifier"),
        E::OptIf(1, Box::new(b.r("Default"))),
    ];
    b.def("SingleArgument", E::Seq("SingleArgument", v));
    b.seq("VariadicArgument", "ExtendedAttributeList? Type '...' Identifier");

    // types
    b.alt("Type", "Single=SingleType Union=NullableUnion");
    b.alt("SingleType", "Any='any' NonAny=NonAnyType");
    b.nullable("NullableUnion", "UnionType");
    let m = b.r("UnionMemberType");
    b.def("UnionType", E::Seq("Parenthesized", vec![E::K("("), E::Sep(Box::new(m), "or"), E::K(")")]));
    b.alt("UnionMemberType", "Single=AttributedNonAnyType Union=NullableUnion");
    b.nullable("NullableInteger", "IntegerType");
    b.nullable("NullableFloat", "FloatingPointType");
    b.nullable("NullableSequence", "SequenceType");
    b.nullable("NullableFrozenArray", "FrozenArrayType");
    b.nullable("NullableRecord", "RecordType");
    b.nullable("NullableIdentifier", "Identifier");
    for k in SIMPLE_TYPES {
        let name: &'static str = Box::leak(format!("Nullable_{}", k.1).into_boxed_str());
        b.def(name, E::Seq("MayBeNull", vec![E::K(k.1), E::Opt(Box::new(E::K("?")))]));
    }
    let mut v: Vec<(&'static str, E)> = vec![
        ("NonAnyType::Promise", b.r("PromiseType")),
        ("NonAnyType::Integer", b.r("NullableInteger")),
        ("NonAnyType::FloatingPoint", b.r("NullableFloat")),
    ];
    for k in SIMPLE_TYPES {
        let rule: &'static str = Box::leak(format!("Nullable_{}", k.1).into_boxed_str());
        let label: &'static str = Box::leak(format!("NonAnyType::{}", k.0).into_boxed_str());
        let r = b.r(rule);
        v.push((label, r));
        if k.0 == "USVString" {
            let r = b.r("NullableSequence");
            v.push(("NonAnyType::Sequence", r));
        }
    }
    for (l, r) in [
        ("NonAnyType::FrozenArrayType", "NullableFrozenArray"),
        ("NonAnyType::RecordType", "NullableRecord"),
        ("NonAnyType::Identifier", "NullableIdentifier"),
    ] {
        let r = b.r(r);
        v.push((l, r));
    }
    b.def("NonAnyType", E::Alt(v));
    let gt = E::Seq("Generics", vec![E::K("<"), b.r("Type"), E::K(">")]);
    b.def("GenericType", gt);
    let gr = E::Seq("Generics", vec![E::K("<"), b.r("ReturnType"), E::K(">")]);
    b.def("GenericReturn", gr);
    let ga = E::Seq("Generics", vec![E::K("<"), b.r("AttributedType"), E::K(">")]);
    b.def("GenericAttr", ga);
    let tup = E::Seq("tuple", vec![b.r("AttributedType"), E::K(","), b.r("AttributedType")]);
    b.def("GenericAttr2", E::Seq("Generics", vec![E::K("<"), tup, E::K(">")]));
    let tup = E::Seq("tuple", vec![b.r("RecordKeyType"), E::K(","), b.r("Type")]);
    b.def("GenericRecord", E::Seq("Generics", vec![E::K("<"), tup, E::K(">")]));
    b.seq("SequenceType", "'sequence' GenericType");
    b.seq("FrozenArrayType", "'FrozenArray' GenericType");
    b.seq("PromiseType", "'Promise' GenericReturn");
    b.seq("RecordType", "'record' GenericRecord");
    b.alt("IntegerType", "LongLong=LongLongType Long=LongType Short=ShortType");
    b.def("LongLong2", E::Seq("tuple", vec![E::K("long"), E::K("long")]));
    b.seq("LongLongType", "'unsigned'? LongLong2");
    b.seq("LongType", "'unsigned'? 'long'");
    b.seq("ShortType", "'unsigned'? 'short'");
    b.alt("FloatingPointType", "Float=FloatType Double=DoubleType");
    b.seq("FloatType", "'unrestricted'? 'float'");
    b.seq("DoubleType", "'unrestricted'? 'double'");
    b.alt("RecordKeyType", "Byte='ByteString' DOM='DOMString' USV='USVString' NonAny=NonAnyType");
    b.alt(
        "ConstType",
        "Integer=NullableInteger FloatingPoint=NullableFloat Boolean=Nullable_boolean \
         Byte=Nullable_byte Octet=Nullable_octet Identifier=NullableIdentifier",
    );
    b.alt("ReturnType", "Undefined='undefined' Type=Type");
    b.seq("AttributedType", "ExtendedAttributeList? Type");
    b.seq("AttributedNonAnyType", "ExtendedAttributeList? NonAnyType");

    // members
    b.seq("Inheritance", "':' Identifier");
    b.alt(
        "InterfaceMember",
        "Const=ConstMember Attribute=AttributeInterfaceMember Constructor=ConstructorInterfaceMember \
         Operation=OperationInterfaceMember Iterable=IterableInterfaceMember \
         AsyncIterable=AsyncIterableInterfaceMember Maplike=MaplikeInterfaceMember \
         Setlike=SetlikeInterfaceMember Stringifier=StringifierMember",
    );
    b.seq("ConstMember", "ExtendedAttributeList? 'const' ConstType Identifier '=' ConstValue ';'");
    b.seq(
        "AttributeInterfaceMember",
        "ExtendedAttributeList? StringifierOrInheritOrStatic? 'readonly'? 'attribute' AttributedType Identifier ';'",
    );
    b.seq("ConstructorInterfaceMember", "ExtendedAttributeList? 'constructor' Args ';'");
    b.seq(
        "OperationInterfaceMember",
        "ExtendedAttributeList? StringifierOrStatic? Special? ReturnType Identifier? Args ';'",
    );
    b.alt("IterableInterfaceMember", "Single=SingleTypedIterable Double=DoubleTypedIterable");
    b.seq("SingleTypedIterable", "ExtendedAttributeList? 'iterable' GenericAttr ';'");
    b.seq("DoubleTypedIterable", "ExtendedAttributeList? 'iterable' GenericAttr2 ';'");
    b.alt("AsyncIterableInterfaceMember", "Single=SingleTypedAsyncIterable Double=DoubleTypedAsyncIterable");
    b.def("AsyncIterable2", E::Seq("tuple", vec![E::K("async"), E::K("iterable")]));
    b.seq("SingleTypedAsyncIterable", "ExtendedAttributeList? AsyncIterable2 GenericAttr Args? ';'");
    b.seq("DoubleTypedAsyncIterable", "ExtendedAttributeList? AsyncIterable2 GenericAttr2 Args? ';'");
    b.seq("MaplikeInterfaceMember", "ExtendedAttributeList? 'readonly'? 'maplike' GenericAttr2 ';'");
    b.seq("SetlikeInterfaceMember", "ExtendedAttributeList? 'readonly'? 'setlike' GenericAttr ';'");
    b.seq("StringifierMember", "ExtendedAttributeList? 'stringifier' ';'");
    b.alt("Special", "Getter='getter' Setter='setter' Deleter='deleter' LegacyCaller='legacycaller'");
    b.alt("StringifierOrInheritOrStatic", "Stringifier='stringifier' Inherit='inherit' Static='static'");
    b.alt("StringifierOrStatic", "Stringifier='stringifier' Static='static'");
    b.alt(
        "MixinMember",
        "Const=ConstMember Operation=OperationMixinMember Attribute=AttributeMixinMember Stringifier=StringifierMember",
    );
    b.seq("OperationMixinMember", "ExtendedAttributeList? 'stringifier'? ReturnType Identifier? Args ';'");
    b.seq(
        "AttributeMixinMember",
        "ExtendedAttributeList? 'stringifier'? 'readonly'? 'attribute' AttributedType Identifier ';'",
    );
    b.alt("NamespaceMember", "Const=ConstNamespaceMember Operation=OperationNamespaceMember Attribute=AttributeNamespaceMember");
    b.seq("ConstNamespaceMember", "ExtendedAttributeList? 'const' ConstType Identifier '=' ConstValue ';'");
    b.seq("OperationNamespaceMember", "ExtendedAttributeList? ReturnType Identifier? Args ';'");
    b.seq("AttributeNamespaceMember", "ExtendedAttributeList? 'readonly' 'attribute' AttributedType Identifier ';'");
    b.seq("DictionaryMember", "ExtendedAttributeList? 'required'? Type Identifier Default? ';'");

    for (body, member) in [
        ("InterfaceBody", "InterfaceMember"),
        ("MixinBody", "MixinMember"),
        ("NamespaceBody", "NamespaceMember"),
        ("DictionaryBody", "DictionaryMember"),
    ] {
        let m = b.r(member);
        b.def(body, E::Seq("Braced", vec![E::K("{"), E::Many(Box::new(m)), E::K("}")]));
    }
    let s = b.r("StringLit");
    b.def("EnumValueList", E::Sep1(Box::new(s), ","));
    let s = b.r("EnumValueList");
    b.def("EnumBody", E::Seq("Braced", vec![E::K("{"), s, E::K("}")]));

    // definitions
    b.alt(
        "Definition",
        "Callback=CallbackDefinition CallbackInterface=CallbackInterfaceDefinition \
         Interface=InterfaceDefinition InterfaceMixin=InterfaceMixinDefinition \
         Namespace=NamespaceDefinition Dictionary=DictionaryDefinition \
         PartialInterface=PartialInterfaceDefinition PartialInterfaceMixin=PartialInterfaceMixinDefinition \
         PartialDictionary=PartialDictionaryDefinition PartialNamespace=PartialNamespaceDefinition \
         Enum=EnumDefinition Typedef=TypedefDefinition IncludesStatement=IncludesStatementDefinition \
         Implements=ImplementsDefinition",
    );
    b.seq("CallbackDefinition", "ExtendedAttributeList? 'callback' Identifier '=' ReturnType Args ';'");
    b.seq(
        "CallbackInterfaceDefinition",
        "ExtendedAttributeList? 'callback' 'interface' Identifier Inheritance? InterfaceBody ';'",
    );
    b.seq("InterfaceDefinition", "ExtendedAttributeList? 'interface' Identifier Inheritance? InterfaceBody ';'");
    b.seq("InterfaceMixinDefinition", "ExtendedAttributeList? 'interface' 'mixin' Identifier MixinBody ';'");
    b.seq("NamespaceDefinition", "ExtendedAttributeList? 'namespace' Identifier NamespaceBody ';'");
    b.seq("DictionaryDefinition", "ExtendedAttributeList? 'dictionary' Identifier Inheritance? DictionaryBody ';'");
    b.seq("PartialInterfaceDefinition", "ExtendedAttributeList? 'partial' 'interface' Identifier InterfaceBody ';'");
    b.seq("PartialInterfaceMixinDefinition", "ExtendedAttributeList? 'partial' 'interface' 'mixin' Identifier MixinBody ';'");
    b.seq("PartialDictionaryDefinition", "ExtendedAttributeList? 'partial' 'dictionary' Identifier DictionaryBody ';'");
    b.seq("PartialNamespaceDefinition", "ExtendedAttributeList? 'partial' 'namespace' Identifier NamespaceBody ';'");
    b.seq("EnumDefinition", "ExtendedAttributeList? 'enum' Identifier EnumBody ';'");
    b.seq("TypedefDefinition", "ExtendedAttributeList? 'typedef' AttributedType Identifier ';'");
    b.seq("IncludesStatementDefinition", "ExtendedAttributeList? Identifier 'includes' Identifier ';'");
    b.seq("ImplementsDefinition", "ExtendedAttributeList? Identifier 'implements' Identifier ';'");
    for (l, m) in [
        ("Definitions", "Definition"),
        ("InterfaceMembers", "InterfaceMember"),
        ("MixinMembers", "MixinMember"),
        ("NamespaceMembers", "NamespaceMember"),
        ("DictionaryMembers", "DictionaryMember"),
    ] {
        let d = b.r(m);
        b.def(l, E::Many(Box::new(d)));
    }

    // instances of the generic building blocks used by C17
    for (n, i) in [
        ("g.OptIdent", "Identifier?"),
        ("g.OptStr", "StringLit?"),
        ("g.OptLong", "'long'?"),
        ("g.VecIdent", "Identifier*"),
        ("g.VecStr", "StringLit*"),
        ("g.PunctIdentComma", "#Identifier%,"),
        ("g.PunctStrSemi", "#StringLit%;"),
        ("g.PunctIdentOr", "#Identifier%or"),
        ("g.PunctTypeOr", "#Type%or"),
        ("g.PunctArgComma", "#Argument%,"),
        ("g.PunctQComma", "#Special%,"),
        ("g.Punct1IdentComma", "+Identifier%,"),
        ("g.Punct1StrComma", "+StringLit%,"),
        ("g.Punct1IdentOr", "+Identifier%or"),
        ("g.Punct1TypeSemi", "+Type%;"),
        ("g.BoxIdent", "Identifier"),
    ] {
        let e = b.item(i);
        b.def(n, e);
    }
    for (n, wrap, o, inner, c) in [
        ("g.ParenIdent", "Parenthesized", "(", "Identifier", ")"),
        ("g.ParenOptType", "Parenthesized", "(", "Type?", ")"),
        ("g.ParenPunct", "Parenthesized", "(", "g.PunctIdentComma", ")"),
        ("g.BracketStr", "Bracketed", "[", "StringLit", "]"),
        ("g.BracketPunct", "Bracketed", "[", "g.PunctStrSemi", "]"),
        ("g.BracedVec", "Braced", "{", "g.VecIdent", "}"),
        ("g.BracedPunct1", "Braced", "{", "g.Punct1IdentComma", "}"),
        ("g.GenericsType", "Generics", "<", "Type", ">"),
        ("g.GenericsPunct", "Generics", "<", "g.PunctTypeOr", ">"),
    ] {
        let e = b.item(inner);
        b.def(n, E::Seq(wrap, vec![E::K(o), e, E::K(c)]));
    }
    for (n, items) in [
        ("g.TupIdentStr", "Identifier StringLit"),
        ("g.TupLongIdent", "'long' Identifier"),
        ("g.Tup3", "Identifier ',' Identifier"),
        ("g.Tup3Opt", "'readonly'? Identifier Default?"),
        ("g.TupVecStr", "Identifier* StringLit"),
    ] {
        let E::Seq(_, v) = b.seq_e("tuple", items) else { unreachable!() };
        b.def(n, E::Seq("tuple", v));
    }
    let e = b.item("g.TupIdentStr");
    b.def("g.VecTup", E::Many(Box::new(e)));
    let e = b.item("g.Tup3");
    b.def("g.OptTup", E::Opt(Box::new(e)));
    let e = b.item("g.ParenPunct");
    b.def("g.VecParenPunct", E::Many(Box::new(e)));
    let e = b.item("g.BracketStr");
    b.def("g.PunctBracket", E::Sep(Box::new(e), ","));
    let e = b.item("g.TupIdentStr");
    b.def("g.Punct1Tup", E::Sep1(Box::new(e), ","));

    let names = b.names.clone();
    let rules = b
        .rules
        .into_iter()
        .enumerate()
        .map(|(i, e)| e.unwrap_or_else(|| panic!("rule {} undefined", names[i])))
        .collect();
    Grammar { names: b.names, rules, index: b.index }
}

/// (variant of NonAnyType, keyword), in documented order
pub const SIMPLE_TYPES: &[(&str, &str)] = &[
    ("Boolean", "boolean"),
    ("Byte", "byte"),
    ("Octet", "octet"),
    ("ByteString", "ByteString"),
    ("DOMString", "DOMString"),
    ("USVString", "USVString"),
    ("Object", "object"),
    ("Symbol", "symbol"),
    ("Error", "Error"),
    ("ArrayBuffer", "ArrayBuffer"),
    ("DataView", "DataView"),
    ("Int8Array", "Int8Array"),
    ("Int16Array", "Int16Array"),
    ("Int32Array", "Int32Array"),
    ("Uint8Array", "Uint8Array"),
    ("Uint16Array", "Uint16Array"),
    ("Uint32Array", "Uint32Array"),
    ("Uint8ClampedArray", "Uint8ClampedArray"),
    ("Float32Array", "Float32Array"),
    ("Float64Array", "Float64Array"),
    ("ArrayBufferView", "ArrayBufferView"),
    ("BufferSource", "BufferSource"),
];

/// The grammar is immutable; one copy per thread keeps it simple.
pub fn grammar() -> &'static Grammar {
    thread_local!(static G: &'static Grammar = Box::leak(Box::new(build())));
    G.with(|g| *g)
}

pub struct Ref<'a> {
    g: &'static Grammar,
    s: &'a str,
    pub toks: Vec<Tok>,
    memo: HashMap<(u32, u32), Option<(T, u32)>, std::hash::BuildHasherDefault<Fx>>,
}

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u32(x as u32);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = (self.0.rotate_left(5) ^ x as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 ^= self.0 >> 29;
    }
}

impl<'a> Ref<'a> {
    pub fn new(s: &'a str) -> Self {
        Ref { g: grammar(), s, toks: lex(s), memo: Default::default() }
    }

    fn text(&self, i: u32) -> &'a str {
        let t = self.toks[i as usize];
        &self.s[t.start..t.end]
    }

    fn tok(&self, p: u32, k: Kind) -> Option<(T, u32)> {
        let t = self.toks[p as usize];
        if t.kind == k {
            let s = self.text(p);
            Some((leaf(if k == Kind::Word { s.strip_prefix('_').unwrap_or(s) } else { s }), p + 1))
        } else {
            None
        }
    }

    fn is(&self, p: u32, k: &str) -> bool {
        let t = self.toks[p as usize];
        matches!(t.kind, Kind::Word | Kind::Sym | Kind::NegInf) && self.text(p) == k
    }

    fn run(&mut self, e: &'static E, p: u32) -> Option<(T, u32)> {
        match e {
            E::K(k) => self.is(p, k).then(|| (leaf(k), p + 1)),
            E::Ident => self.tok(p, Kind::Word),
            E::Str => self.tok(p, Kind::Str),
            E::Dec => self.tok(p, Kind::Dec),
            E::Hex => self.tok(p, Kind::Hex),
            E::Oct => self.tok(p, Kind::Oct),
            E::Float => self.tok(p, Kind::Float),
            E::Bool => ["true", "false"].iter().find(|k| self.is(p, k)).map(|k| (leaf(k), p + 1)),
            E::R(r) => {
                let key = (*r as u32, p);
                if let Some(x) = self.memo.get(&key) {
                    return x.clone();
                }
                let g = self.g;
                let x = self.run(&g.rules[*r], p);
                self.memo.insert(key, x.clone());
                x
            }
            E::Opt(e) => Some(self.run(e, p).unwrap_or_else(|| (none(), p))),
            E::Many(e) => {
                let (mut v, mut p) = (vec![], p);
                while let Some((t, q)) = self.run(e, p) {
                    if q == p {
                        break;
                    }
                    v.push(t);
                    p = q;
                }
                Some((list(None, v), p))
            }
            E::Sep(e, s) => Some(self.sep(e, s, p)),
            E::Sep1(e, s) => {
                let (t, q) = self.sep(e, s, p);
                if t.items().is_empty() {
                    return None;
                }
                Some((t, if self.is(q, s) { q + 1 } else { q }))
            }
            E::Seq(n, v) => {
                let (mut kids, mut p) = (Vec::with_capacity(v.len()), p);
                for e in v {
                    if let E::OptIf(i, e) = e {
                        let prev: &T = &kids[*i];
                        if **prev == Tree::None {
                            kids.push(none());
                            continue;
                        }
                        let (t, q) = self.run(e, p).unwrap_or_else(|| (none(), p));
                        kids.push(t);
                        p = q;
                        continue;
                    }
                    let (t, q) = self.run(e, p)?;
                    kids.push(t);
                    p = q;
                }
                Some((node(n, kids), p))
            }
            E::Alt(v) => {
                for (l, e) in v {
                    if let Some((t, q)) = self.run(e, p) {
                        return Some((node(l, vec![t]), q));
                    }
                }
                None
            }
            E::OptIf(..) => unreachable!(),
        }
    }

    fn sep(&mut self, e: &'static E, s: &'static str, p: u32) -> (T, u32) {
        let (mut v, mut p) = (vec![], p);
        if let Some((t, q)) = self.run(e, p) {
            v.push(t);
            p = q;
            while self.is(p, s) {
                match self.run(e, p + 1) {
                    Some((t, q)) => {
                        v.push(t);
                        p = q;
                    }
                    None => break,
                }
            }
        }
        (list(Some(s), v), p)
    }

    /// What the rule makes of the front of the text: tree, offset of the unread rest, tokens used.
    pub fn rule(&mut self, name: &str) -> Option<(T, usize, usize)> {
        let g = self.g;
        let i = *g.index.get(name).unwrap_or_else(|| panic!("no rule {}", name));
        let (t, p) = self.run(&g.rules[i], 0)?;
        // an absent optional part consumes nothing, not even trivia
        let rest = if p == 0 { 0 } else { self.toks[p as usize].start };
        Some((t, rest, p as usize))
    }

    /// The whole document: its tree, or the definitions before the first bad one and the
    /// offset of the first token of that one.
    pub fn document(&mut self) -> Result<T, (T, usize)> {
        let (t, _, p) = self.rule("Definitions").unwrap();
        if self.toks[p].kind == Kind::Eof {
            Ok(t)
        } else {
            Err((t, self.toks[p].start))
        }
    }
}

impl<'a> Ref<'a> {
    /// Source spans (first token to end of last token) of the definitions of the text.
    pub fn definition_spans(&mut self) -> Vec<(usize, usize)> {
        let g = self.g;
        let r = &g.rules[g.index["Definition"]];
        let (mut v, mut p) = (vec![], 0);
        while let Some((_, q)) = self.run(r, p) {
            v.push((self.toks[p as usize].start, self.toks[q as usize - 1].end));
            p = q;
        }
        v
    }
}
