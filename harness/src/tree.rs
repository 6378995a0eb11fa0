//! A neutral tree that both weedle's result and the reference parser's result are turned into.
//! It holds every field of weedle's tree, terminals included, in declaration order.
#![allow(unreachable_patterns)]

use std::cell::Cell;
use std::rc::Rc;
use weedle::argument::*;
use weedle::attribute::*;
use weedle::common::{
    Braced, Bracketed, Default as Dflt, Generics, Identifier, Parenthesized, Punctuated,
    PunctuatedNonEmpty,
};
use weedle::dictionary::*;
use weedle::interface::*;
use weedle::literal::*;
use weedle::mixin::*;
use weedle::namespace::*;
use weedle::term;
use weedle::types::*;
use weedle::*;

pub type T = Rc<Tree>;

#[derive(Debug)]
pub enum Tree {
    /// a terminal; `at` is the address of the borrowed slice, 0 for fixed terminals
    Leaf { text: String, at: usize },
    /// an absent optional part
    None,
    Node(&'static str, Vec<T>),
    List(Option<&'static str>, Vec<T>),
}

impl PartialEq for Tree {
    fn eq(&self, o: &Tree) -> bool {
        match (self, o) {
            (Tree::Leaf { text: a, .. }, Tree::Leaf { text: b, .. }) => a == b,
            (Tree::None, Tree::None) => true,
            (Tree::Node(a, x), Tree::Node(b, y)) => a == b && x == y,
            (Tree::List(a, x), Tree::List(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}
impl Eq for Tree {}

pub fn leaf(s: &str) -> T {
    Rc::new(Tree::Leaf { text: s.to_string(), at: 0 })
}
pub fn leaf_at(s: &str) -> T {
    Rc::new(Tree::Leaf { text: s.to_string(), at: s.as_ptr() as usize })
}
pub fn none() -> T {
    thread_local!(static NONE: T = Rc::new(Tree::None));
    NONE.with(|n| n.clone())
}
pub fn node(n: &'static str, k: Vec<T>) -> T {
    Rc::new(Tree::Node(n, k))
}
pub fn list(sep: Option<&'static str>, k: Vec<T>) -> T {
    Rc::new(Tree::List(sep, k))
}

impl Tree {
    /// Token texts in order, with the address of borrowed ones (0 otherwise).
    pub fn flatten<'t>(&'t self, out: &mut Vec<(&'t str, usize)>) {
        match self {
            Tree::Leaf { text, at } => out.push((text, *at)),
            Tree::None => {}
            Tree::Node(_, k) => k.iter().for_each(|t| t.flatten(out)),
            Tree::List(sep, k) => {
                for (i, t) in k.iter().enumerate() {
                    if i > 0 {
                        if let Some(s) = sep {
                            out.push((s, 0));
                        }
                    }
                    t.flatten(out);
                }
            }
        }
    }
    fn each_(&self, f: &mut dyn FnMut(&str)) {
        match self {
            Tree::Leaf { text, .. } => f(text),
            Tree::None => {}
            Tree::Node(n, k) => {
                f(n);
                k.iter().for_each(|t| t.each_(f))
            }
            Tree::List(_, k) => k.iter().for_each(|t| t.each_(f)),
        }
    }
    pub fn items(&self) -> &[T] {
        match self {
            Tree::List(_, k) | Tree::Node(_, k) => k,
            _ => &[],
        }
    }
    pub fn show(&self, max: usize) -> String {
        let mut s = String::new();
        self.show_(&mut s, max);
        if s.len() > max {
            let mut n = max;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str("...");
        }
        s
    }
    fn show_(&self, s: &mut String, max: usize) {
        if s.len() > max {
            return;
        }
        match self {
            Tree::Leaf { text, .. } => s.push_str(&format!("{:?}", text)),
            Tree::None => s.push('-'),
            Tree::Node(n, k) => {
                s.push_str(n);
                s.push('(');
                for (i, t) in k.iter().enumerate() {
                    if i > 0 {
                        s.push(' ');
                    }
                    t.show_(s, max);
                }
                s.push(')');
            }
            Tree::List(sep, k) => {
                s.push('[');
                for (i, t) in k.iter().enumerate() {
                    if i > 0 {
                        s.push_str(sep.unwrap_or(" "));
                        s.push(' ');
                    }
                    t.show_(s, max);
                }
                s.push(']');
            }
        }
    }
}

pub trait ToTree {
    fn t(&self) -> T;
    /// Names of nodes and texts of leaves in order, without building the tree of a long list.
    fn each(&self, f: &mut dyn FnMut(&str)) {
        self.t().each_(f)
    }
}
/// Terminal types: their documented spelling.
pub trait Term {
    const SP: &'static str;
}

macro_rules! terms {
    ($($ty:ident $sp:expr;)*) => { $(
        impl Term for term::$ty { const SP: &'static str = $sp; }
        impl ToTree for term::$ty { fn t(&self) -> T { leaf($sp) } }
    )* };
}
terms! {
    OpenParen "("; CloseParen ")"; OpenBracket "["; CloseBracket "]"; OpenBrace "{"; CloseBrace "}";
    Comma ","; Minus "-"; Dot "."; Ellipsis "..."; Colon ":"; SemiColon ";"; LessThan "<"; Assign "=";
    GreaterThan ">"; QMark "?"; Asterisk "*";
    Or "or"; Optional "optional"; Async "async"; Attribute "attribute"; Callback "callback";
    Const "const"; Deleter "deleter"; Dictionary "dictionary"; Enum "enum"; Getter "getter";
    Includes "includes"; Inherit "inherit"; Interface "interface"; Iterable "iterable";
    Maplike "maplike"; Namespace "namespace"; Partial "partial"; Required "required";
    Setlike "setlike"; Setter "setter"; Static "static"; Stringifier "stringifier";
    Typedef "typedef"; Unrestricted "unrestricted"; Symbol "symbol"; NegInfinity "-Infinity";
    ByteString "ByteString"; DOMString "DOMString"; FrozenArray "FrozenArray"; Infinity "Infinity";
    NaN "NaN"; USVString "USVString"; Any "any"; Boolean "boolean"; Byte "byte"; Double "double";
    False "false"; Float "float"; Long "long"; Null "null"; Object "object"; Octet "octet";
    Sequence "sequence"; Short "short"; True "true"; Unsigned "unsigned"; Undefined "undefined";
    Record "record"; ArrayBuffer "ArrayBuffer"; DataView "DataView"; Int8Array "Int8Array";
    Int16Array "Int16Array"; Int32Array "Int32Array"; Uint8Array "Uint8Array";
    Uint16Array "Uint16Array"; Uint32Array "Uint32Array"; Uint8ClampedArray "Uint8ClampedArray";
    Float32Array "Float32Array"; Float64Array "Float64Array"; ArrayBufferView "ArrayBufferView";
    BufferSource "BufferSource"; Promise "Promise"; Error "Error"; ReadOnly "readonly";
    Mixin "mixin"; Implements "implements"; LegacyCaller "legacycaller"; Constructor "constructor";
}

impl<X: ToTree> ToTree for Option<X> {
    fn t(&self) -> T {
        self.as_ref().map_or_else(none, |x| x.t())
    }
    fn each(&self, f: &mut dyn FnMut(&str)) {
        self.iter().for_each(|x| x.each(f))
    }
}
impl<X: ToTree> ToTree for Box<X> {
    fn t(&self) -> T {
        (**self).t()
    }
    fn each(&self, f: &mut dyn FnMut(&str)) {
        (**self).each(f)
    }
}
impl<X: ToTree> ToTree for Vec<X> {
    fn t(&self) -> T {
        list(None, self.iter().map(|x| x.t()).collect())
    }
    fn each(&self, f: &mut dyn FnMut(&str)) {
        self.iter().for_each(|x| x.each(f))
    }
}
impl<A: ToTree, B: ToTree> ToTree for (A, B) {
    fn t(&self) -> T {
        node("tuple", vec![self.0.t(), self.1.t()])
    }
}
impl<A: ToTree, B: ToTree, C: ToTree> ToTree for (A, B, C) {
    fn t(&self) -> T {
        node("tuple", vec![self.0.t(), self.1.t(), self.2.t()])
    }
}
impl<X: ToTree> ToTree for Parenthesized<X> {
    fn t(&self) -> T {
        node("Parenthesized", vec![self.open_paren.t(), self.body.t(), self.close_paren.t()])
    }
    fn each(&self, f: &mut dyn FnMut(&str)) {
        f("Parenthesized");
        self.body.each(f)
    }
}
impl<X: ToTree> ToTree for Bracketed<X> {
    fn t(&self) -> T {
        node("Bracketed", vec![self.open_bracket.t(), self.body.t(), self.close_bracket.t()])
    }
    fn each(&self, f: &mut dyn FnMut(&str)) {
        f("Bracketed");
        self.body.each(f)
    }
}
impl<X: ToTree> ToTree for Braced<X> {
    fn t(&self) -> T {
        node("Braced", vec![self.open_brace.t(), self.body.t(), self.close_brace.t()])
    }
    fn each(&self, f: &mut dyn FnMut(&str)) {
        f("Braced");
        self.body.each(f)
    }
}
impl<X: ToTree> ToTree for Generics<X> {
    fn t(&self) -> T {
        node("Generics", vec![self.open_angle.t(), self.body.t(), self.close_angle.t()])
    }
    fn each(&self, f: &mut dyn FnMut(&str)) {
        f("Generics");
        self.body.each(f)
    }
}
impl<X: ToTree, S: Term> ToTree for Punctuated<X, S> {
    fn t(&self) -> T {
        list(Some(S::SP), self.list.iter().map(|x| x.t()).collect())
    }
    fn each(&self, f: &mut dyn FnMut(&str)) {
        self.list.iter().for_each(|x| x.each(f))
    }
}
impl<X: ToTree, S: Term> ToTree for PunctuatedNonEmpty<X, S> {
    fn t(&self) -> T {
        list(Some(S::SP), self.list.iter().map(|x| x.t()).collect())
    }
    fn each(&self, f: &mut dyn FnMut(&str)) {
        self.list.iter().for_each(|x| x.each(f))
    }
}
impl<X: ToTree> ToTree for MayBeNull<X> {
    fn t(&self) -> T {
        node("MayBeNull", vec![self.type_.t(), self.q_mark.t()])
    }
}
impl<'a> ToTree for Dflt<'a> {
    fn t(&self) -> T {
        node("Default", vec![self.assign.t(), self.value.t()])
    }
}
impl ToTree for BooleanLit {
    fn t(&self) -> T {
        node("BooleanLit", vec![leaf(if self.0 { "true" } else { "false" })])
    }
}
impl<'a> ToTree for StringLit<'a> {
    fn t(&self) -> T {
        // shown with its quotes; the address is that of the opening quote
        node(
            "StringLit",
            vec![Rc::new(Tree::Leaf {
                text: format!("\"{}\"", self.0),
                at: (self.0.as_ptr() as usize).wrapping_sub(1),
            })],
        )
    }
}
macro_rules! slices { ($($n:ident)*) => { $(
    impl<'a> ToTree for $n<'a> { fn t(&self) -> T { node(stringify!($n), vec![leaf_at(self.0)]) } }
)* } }
slices! { Identifier DecLit HexLit OctLit FloatValueLit }

impl<'a> ToTree for ExtendedAttributeNoArgs<'a> {
    fn t(&self) -> T {
        node("ExtendedAttributeNoArgs", vec![self.0.t()])
    }
}

macro_rules! structs {
    ($([$($lt:lifetime)?] $n:ident { $($f:ident)* })*) => { $(
        impl$(<$lt>)? ToTree for $n$(<$lt>)? {
            fn t(&self) -> T { node(stringify!($n), vec![$(self.$f.t()),*]) }
            fn each(&self, f: &mut dyn FnMut(&str)) {
                f(stringify!($n));
                $(self.$f.each(f);)*
            }
        }
    )* };
}
structs! {
    ['a] CallbackDefinition { attributes callback identifier assign return_type arguments semi_colon }
    ['a] CallbackInterfaceDefinition { attributes callback interface identifier inheritance members semi_colon }
    ['a] InterfaceDefinition { attributes interface identifier inheritance members semi_colon }
    ['a] InterfaceMixinDefinition { attributes interface mixin identifier members semi_colon }
    ['a] NamespaceDefinition { attributes namespace identifier members semi_colon }
    ['a] DictionaryDefinition { attributes dictionary identifier inheritance members semi_colon }
    ['a] PartialInterfaceDefinition { attributes partial interface identifier members semi_colon }
    ['a] PartialInterfaceMixinDefinition { attributes partial interface mixin identifier members semi_colon }
    ['a] PartialDictionaryDefinition { attributes partial dictionary identifier members semi_colon }
    ['a] PartialNamespaceDefinition { attributes partial namespace identifier members semi_colon }
    ['a] EnumDefinition { attributes enum_ identifier values semi_colon }
    ['a] TypedefDefinition { attributes typedef type_ identifier semi_colon }
    ['a] IncludesStatementDefinition { attributes lhs_identifier includes rhs_identifier semi_colon }
    ['a] ImplementsDefinition { attributes lhs_identifier includes rhs_identifier semi_colon }
    ['a] Inheritance { colon identifier }
    ['a] ConstMember { attributes const_ const_type identifier assign const_value semi_colon }
    ['a] AttributeInterfaceMember { attributes modifier readonly attribute type_ identifier semi_colon }
    ['a] ConstructorInterfaceMember { attributes constructor args semi_colon }
    ['a] OperationInterfaceMember { attributes modifier special return_type identifier args semi_colon }
    ['a] SingleTypedIterable { attributes iterable generics semi_colon }
    ['a] DoubleTypedIterable { attributes iterable generics semi_colon }
    ['a] SingleTypedAsyncIterable { attributes async_iterable generics args semi_colon }
    ['a] DoubleTypedAsyncIterable { attributes async_iterable generics args semi_colon }
    ['a] MaplikeInterfaceMember { attributes readonly maplike generics semi_colon }
    ['a] SetlikeInterfaceMember { attributes readonly setlike generics semi_colon }
    ['a] StringifierMember { attributes stringifier semi_colon }
    ['a] OperationMixinMember { attributes stringifier return_type identifier args semi_colon }
    ['a] AttributeMixinMember { attributes stringifier readonly attribute type_ identifier semi_colon }
    ['a] ConstNamespaceMember { attributes const_ const_type identifier assign const_value semi_colon }
    ['a] OperationNamespaceMember { attributes return_type identifier args semi_colon }
    ['a] AttributeNamespaceMember { attributes readonly attribute type_ identifier semi_colon }
    ['a] DictionaryMember { attributes required type_ identifier default semi_colon }
    ['a] SingleArgument { attributes optional type_ identifier default }
    ['a] VariadicArgument { attributes type_ ellipsis identifier }
    ['a] ExtendedAttributeArgList { identifier args }
    ['a] ExtendedAttributeNamedArgList { lhs_identifier assign rhs_identifier args }
    ['a] ExtendedAttributeIdentList { identifier assign list }
    ['a] ExtendedAttributeIdent { lhs_identifier assign rhs }
    ['a] ExtendedAttributeWildCard { lhs_identifier assign rhs }
    ['a] SequenceType { sequence generics }
    ['a] FrozenArrayType { frozen_array generics }
    ['a] PromiseType { promise generics }
    [] LongLongType { unsigned long_long }
    [] LongType { unsigned long }
    [] ShortType { unsigned short }
    [] FloatType { unrestricted float }
    [] DoubleType { unrestricted double }
    ['a] RecordType { record generics }
    ['a] AttributedType { attributes type_ }
    ['a] AttributedNonAnyType { attributes type_ }
    [] EmptyArrayLit { open_bracket close_bracket }
    [] EmptyDictionaryLit { open_brace close_brace }
}

thread_local! {
    /// When set, turning a choice type into a tree also checks its generated conversions.
    pub static CHECK_FROM: Cell<bool> = const { Cell::new(false) };
    pub static FROM_BAD: Cell<Option<&'static str>> = const { Cell::new(None) };
    pub static FROM_COUNT: Cell<u64> = const { Cell::new(0) };
}

macro_rules! enums {
    ($([$($lt:lifetime)?] $n:ident { $($v:ident)* })*) => { $(
        impl$(<$lt>)? ToTree for $n$(<$lt>)? {
            fn t(&self) -> T {
                match self {
                    $($n::$v(x) => {
                        if CHECK_FROM.with(|c| c.get()) {
                            FROM_COUNT.with(|c| c.set(c.get() + 1));
                            let y: Self = From::from(x.clone());
                            if !matches!(y, $n::$v(_)) || y != *self {
                                FROM_BAD.with(|c| c.set(Some(concat!(stringify!($n), "::", stringify!($v)))));
                            }
                        }
                        node(concat!(stringify!($n), "::", stringify!($v)), vec![x.t()])
                    })*
                    _ => node("unknown variant", vec![]),
                }
            }
            fn each(&self, f: &mut dyn FnMut(&str)) {
                match self {
                    $($n::$v(x) => {
                        f(concat!(stringify!($n), "::", stringify!($v)));
                        x.each(f)
                    })*
                    _ => f("unknown variant"),
                }
            }
        }
    )* };
}
enums! {
    ['a] Definition { Callback CallbackInterface Interface InterfaceMixin Namespace Dictionary PartialInterface
        PartialInterfaceMixin PartialDictionary PartialNamespace Enum Typedef IncludesStatement Implements }
    ['a] InterfaceMember { Const Attribute Constructor Operation Iterable AsyncIterable Maplike Setlike Stringifier }
    ['a] IterableInterfaceMember { Single Double }
    ['a] AsyncIterableInterfaceMember { Single Double }
    [] Special { Getter Setter Deleter LegacyCaller }
    [] StringifierOrInheritOrStatic { Stringifier Inherit Static }
    [] StringifierOrStatic { Stringifier Static }
    ['a] MixinMember { Const Operation Attribute Stringifier }
    ['a] NamespaceMember { Const Operation Attribute }
    ['a] Argument { Single Variadic }
    ['a] ExtendedAttribute { ArgList NamedArgList IdentList Ident Wildcard NoArgs }
    ['a] IdentifierOrString { Identifier String }
    ['a] Type { Single Union }
    ['a] SingleType { Any NonAny }
    ['a] NonAnyType { Promise Integer FloatingPoint Boolean Byte Octet ByteString DOMString USVString Sequence
        Object Symbol Error ArrayBuffer DataView Int8Array Int16Array Int32Array Uint8Array Uint16Array
        Uint32Array Uint8ClampedArray Float32Array Float64Array ArrayBufferView BufferSource FrozenArrayType
        RecordType Identifier }
    [] IntegerType { LongLong Long Short }
    [] FloatingPointType { Float Double }
    ['a] RecordKeyType { Byte DOM USV NonAny }
    ['a] UnionMemberType { Single Union }
    ['a] ConstType { Integer FloatingPoint Boolean Byte Octet Identifier }
    ['a] ReturnType { Undefined Type }
    ['a] IntegerLit { Dec Hex Oct }
    ['a] DefaultValue { Boolean EmptyArray EmptyDictionary Float Integer Null String }
    ['a] ConstValue { Boolean Float Integer Null }
    ['a] FloatLit { Value NegInfinity Infinity NaN }
}
